"""SMEFTsim parameter cards: independent reader and the meaning of each entry."""
import re
from . import bases as B


def parse(text):
    """LHA text -> {block: {ids: value}}; decays as block 'DECAY'."""
    out, cur = {}, None
    for line in text.splitlines():
        body = line.split('#')[0].split()
        if not body:
            continue
        if body[0].lower() == 'block':
            cur = ' '.join(x.upper() for x in body[1:])
            out.setdefault(cur, {})
        elif body[0].lower() == 'decay':
            out.setdefault('DECAY', {})[body[1]] = float(body[2])
            cur = None
        elif cur is not None:
            k = ' '.join(body[:-1])
            if k in out[cur]:
                raise ValueError('entry %s of block %s occurs twice' % (k, cur))
            out[cur][k] = float(body[-1])
        else:
            raise ValueError('line outside of a block: %r' % line)
    return out


# label (lower case, without leading c) -> operator class of the Warsaw basis
SCALAR = {'g': 'G', 'gtil': 'Gtilde', 'w': 'W', 'wtil': 'Wtilde', 'h': 'phi', 'hbox': 'phiBox', 'hdd': 'phiD', 'hg': 'phiG', 'hb': 'phiB',
          'hw': 'phiW', 'hwb': 'phiWB', 'hgtil': 'phiGtilde', 'hbtil': 'phiBtilde', 'hwtil': 'phiWtilde', 'hwbtil': 'phiWtildeB'}
CLASS = {}
for c in list(B.SMEFT_2F) + list(B.SMEFT_4F):
    l = c
    if c.startswith('phi'):
        l = 'H' + c[3:]
    elif c.endswith('phi') and c != 'llphiphi':
        l = c[:-3] + 'H'
    CLASS[l.lower()] = c


def meaning(label):
    """'# cHl1Abs12' -> (basis key, conj, part) or ('cutoff',..), ('MW',..), None"""
    l = label.lstrip('# ').strip()
    if l in ('LambdaSMEFT', 'Lambda'):
        return 'cutoff', False, ''
    if l == 'MW0':
        return 'MW', False, ''
    if not l.startswith('c'):
        return None
    if l[1:].lower() in SCALAR:
        return SCALAR[l[1:].lower()], False, 'Abs'
    m = re.match(r'c([A-Za-z]+[138]?)(Abs|Ph)([1-3x]+)$', l)
    if not m or m.group(1).lower() not in CLASS:
        return None
    cls = CLASS[m.group(1).lower()]
    ind = tuple(int(x) for x in m.group(3).replace('x', ''))
    if len(ind) != len(B.FIELDS[cls]):
        return None
    orb = B.orbit(ind, B.smeft_generators(cls))
    rep = min(orb)
    return B.label(cls, rep), False not in orb[rep], m.group(2)


def exported():
    """Coefficients the card carries: B and L conserving ones."""
    return {k: r for k, r in B.smeft_keys(True).items() if B.smeft_sector(k) == 'dB=dL=0'}
