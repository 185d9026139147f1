"""Reconstruction of the EFT and basis definitions the package is used with.

The git submodule that normally ships them (wcxf/bases) is absent from the
checkout, so the harness builds them from first principles: operator classes,
the flavour range of every index, and the permutation/hermiticity symmetry of
each class.  One independent index tuple per symmetry orbit is kept (the
lexicographically smallest), exactly as the WCxf basis files do.

Everything in here is independent of the code under test.
"""
import itertools
import collections

# ---------------------------------------------------------------------------
# SMEFT
# ---------------------------------------------------------------------------
SMEFT_0F = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG",
            "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde",
            "phiWtildeB"]
# class -> (field content of the bilinear, kind)
# fields: lower-case letters are fields, '*' after the letter: conjugated field
SMEFT_2F = {
    'uphi': 'q*u', 'uG': 'q*u', 'uW': 'q*u', 'uB': 'q*u',
    'dphi': 'q*d', 'dG': 'q*d', 'dW': 'q*d', 'dB': 'q*d',
    'ephi': 'l*e', 'eW': 'l*e', 'eB': 'l*e',
    'phil1': 'l*l', 'phil3': 'l*l', 'phie': 'e*e', 'phiq1': 'q*q',
    'phiq3': 'q*q', 'phiu': 'u*u', 'phid': 'd*d', 'phiud': 'u*d',
    'llphiphi': 'll',
}
SMEFT_4F = {
    'll': 'l*ll*l', 'qq1': 'q*qq*q', 'qq3': 'q*qq*q', 'lq1': 'l*lq*q',
    'lq3': 'l*lq*q', 'ee': 'e*ee*e', 'uu': 'u*uu*u', 'dd': 'd*dd*d',
    'eu': 'e*eu*u', 'ed': 'e*ed*d', 'ud1': 'u*ud*d', 'ud8': 'u*ud*d',
    'le': 'l*le*e', 'lu': 'l*lu*u', 'ld': 'l*ld*d', 'qe': 'q*qe*e',
    'qu1': 'q*qu*u', 'qu8': 'q*qu*u', 'qd1': 'q*qd*d', 'qd8': 'q*qd*d',
    'ledq': 'l*ed*q', 'quqd1': 'q*uq*d', 'quqd8': 'q*uq*d',
    'lequ1': 'l*eq*u', 'lequ3': 'l*eq*u',
    'duql': 'duql', 'qque': 'qque', 'qqql': 'qqql', 'duue': 'duue',
}
BNV = ('duql', 'qque', 'qqql', 'duue')


def parse_fields(s):
    """'q*uq*d' -> [('q', True), ('u', False), ('q', True), ('d', False)]"""
    out = []
    for c in s:
        if c == '*':
            out[-1] = (out[-1][0], True)
        else:
            out.append((c, False))
    return out


FIELDS = {k: parse_fields(v) for k, v in list(SMEFT_2F.items()) + list(SMEFT_4F.items())}

HERM2 = ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid')
IDENT4 = ('ll', 'qq1', 'qq3', 'uu', 'dd')          # two identical currents
INDEP4 = ('lq1', 'lq3', 'eu', 'ed', 'ud1', 'ud8', 'le', 'lu', 'ld', 'qe',
          'qu1', 'qd1', 'qu8', 'qd8')              # two different currents

# generators of the symmetry group: (permutation, complex conjugation?)
G_HERM2 = [((1, 0), True)]
G_SYM2 = [((1, 0), False)]
G_HERM4 = [((1, 0, 3, 2), True)]
G_CUR = [((2, 3, 0, 1), False)]
G_FIERZ = [((0, 3, 2, 1), False)]
G_12 = [((1, 0, 2, 3), False)]


def smeft_generators(name):
    if name in HERM2:
        return G_HERM2
    if name == 'llphiphi':
        return G_SYM2
    if name in INDEP4:
        return G_HERM4
    if name in IDENT4:
        return G_HERM4 + G_CUR
    if name == 'ee':
        return G_HERM4 + G_CUR + G_FIERZ
    if name == 'qque':
        return G_12
    return []


def orbit(ind, gens):
    """Closed orbit of an index tuple: {tuple: set of conj flags}."""
    seen = {(tuple(ind), False)}
    todo = [(tuple(ind), False)]
    while todo:
        t, c = todo.pop()
        for perm, cc in gens:
            n = (tuple(t[p] for p in perm), c ^ cc)
            if n not in seen:
                seen.add(n)
                todo.append(n)
    d = collections.defaultdict(set)
    for t, c in seen:
        d[t].add(c)
    return d


def independent(ranges, gens):
    """[(index tuple (1-based), is_real)] one per orbit."""
    out = []
    for ind in itertools.product(*[range(1, r + 1) for r in ranges]):
        o = orbit(ind, gens)
        if min(o) != ind:
            continue
        out.append((ind, o[ind] == {True, False}))
    return out


def _qqql_independent():
    # relation C_prst + C_rpst = C_sprt + C_srpt (hep-ph/1405.0486): for every t
    # 10 totally symmetric + 8 mixed + 1 antisymmetric = 19 independent
    red = {(2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 1, 2), (3, 2, 1), (3, 2, 2),
           (3, 3, 1), (3, 3, 2)}
    out = []
    for p, r, s in itertools.product((1, 2, 3), repeat=3):
        if (p, r, s) in red:
            continue
        for t in (1, 2, 3):
            out.append(((p, r, s, t), False))
    return out


def label(name, ind):
    return name + '_' + ''.join(str(i) for i in ind)


def smeft_keys(massbasis=False):
    """OrderedDict name -> is_real, for 'Warsaw'/'Warsaw up' (or 'Warsaw mass')."""
    d = collections.OrderedDict()
    for k in SMEFT_0F:
        d[k] = True
    for k in list(SMEFT_2F) + list(SMEFT_4F):
        n = len(FIELDS[k])
        if k == 'qqql':
            items = _qqql_independent()
        elif k == 'llphiphi' and massbasis:
            items = [((i, i), True) for i in (1, 2, 3)]
        else:
            items = independent((3,) * n, smeft_generators(k))
        for ind, real in items:
            d[label(k, ind)] = real
    return d


def smeft_sector(key):
    n = key.split('_')[0]
    if n in BNV:
        return 'dB=dL=1'
    if n == 'llphiphi':
        return 'dL=2'
    return 'dB=dL=0'


# ---------------------------------------------------------------------------
# WET, JMS basis (1709.04486), Delta B = Delta L = 0
# ---------------------------------------------------------------------------
# class -> field content; n: neutrino (3), e (3), u (2), d (3)
JMS = collections.OrderedDict([
    ('egamma', 'ee'), ('ugamma', 'uu'), ('dgamma', 'dd'), ('uG', 'uu'), ('dG', 'dd'),
    ('VnunuLL', 'nnnn'), ('VeeLL', 'eeee'), ('VnueLL', 'nnee'), ('VnuuLL', 'nnuu'),
    ('VnudLL', 'nndd'), ('VeuLL', 'eeuu'), ('VedLL', 'eedd'), ('VnueduLL', 'nedu'),
    ('VuuLL', 'uuuu'), ('VddLL', 'dddd'), ('V1udLL', 'uudd'), ('V8udLL', 'uudd'),
    ('VeeRR', 'eeee'), ('VeuRR', 'eeuu'), ('VedRR', 'eedd'), ('VuuRR', 'uuuu'),
    ('VddRR', 'dddd'), ('V1udRR', 'uudd'), ('V8udRR', 'uudd'),
    ('VnueLR', 'nnee'), ('VeeLR', 'eeee'), ('VnuuLR', 'nnuu'), ('VnudLR', 'nndd'),
    ('VeuLR', 'eeuu'), ('VedLR', 'eedd'), ('VueLR', 'uuee'), ('VdeLR', 'ddee'),
    ('VnueduLR', 'nedu'), ('V1uuLR', 'uuuu'), ('V8uuLR', 'uuuu'),
    ('V1udLR', 'uudd'), ('V8udLR', 'uudd'), ('V1duLR', 'dduu'), ('V8duLR', 'dduu'),
    ('V1ddLR', 'dddd'), ('V8ddLR', 'dddd'), ('V1udduLR', 'uddu'), ('V8udduLR', 'uddu'),
    ('SeuRL', 'eeuu'), ('SedRL', 'eedd'), ('SnueduRL', 'nedu'),
    ('SeeRR', 'eeee'), ('SeuRR', 'eeuu'), ('TeuRR', 'eeuu'), ('SedRR', 'eedd'),
    ('TedRR', 'eedd'), ('SnueduRR', 'nedu'), ('TnueduRR', 'nedu'),
    ('S1uuRR', 'uuuu'), ('S8uuRR', 'uuuu'), ('S1udRR', 'uudd'), ('S8udRR', 'uudd'),
    ('S1ddRR', 'dddd'), ('S8ddRR', 'dddd'), ('S1udduRR', 'uddu'), ('S8udduRR', 'uddu'),
])
JMS_HERM = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL",
            "VeuRR", "VedRR", "V1udRR", "V8udRR", "VnueLR", "VeeLR", "VnuuLR",
            "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR", "V8uuLR",
            "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"]


def jms_generators(name):
    if name in JMS_HERM:
        return G_HERM4
    if name in ("VuuLL", "VddLL", "VuuRR", "VddRR"):
        return G_HERM4 + G_CUR
    if name in ("VnunuLL", "VeeLL", "VeeRR"):
        return G_HERM4 + G_CUR + G_FIERZ
    if name in ("S1uuRR", "S8uuRR", "S1ddRR", "S8ddRR", "SeeRR"):
        return G_CUR
    return []


NFL = {'n': 3, 'e': 3, 'u': 2, 'd': 3}


def jms_keys(nu=2, nd=3):
    d = collections.OrderedDict()
    d['G'] = True
    d['Gtilde'] = True
    nfl = dict(NFL, u=nu, d=nd)
    for k, fl in JMS.items():
        for ind, real in independent([nfl[f] for f in fl], jms_generators(k)):
            d[label(k, ind)] = real
    return d


# ---------------------------------------------------------------------------
# flavio, Bern, EOS, formflavor, FlavorKit
# ---------------------------------------------------------------------------
LEP = ('e', 'mu', 'tau')
CC = ('cb', 'ub', 'us', 'cs', 'cd', 'ud')     # up-down pairs


def flavio_keys(exclude=''):
    out = []

    def ok(q):
        return not any(x in q for x in exclude)
    for qq in ('bs', 'bd', 'sd'):
        if ok(qq):
            for op in ('CVLL', 'CSLL', 'CTLL', 'CVLR', 'CVRR', 'CSRR', 'CTRR', 'CSLR'):
                out.append(op + '_' + 2 * qq)
    for qq in CC:
        if ok(qq):
            for l in LEP:
                for lp in LEP:
                    for op in ('CVL', 'CVR', 'CSL', 'CSR', 'CT'):
                        out.append(op + '_' + qq[::-1] + l + 'nu' + lp)
    for qq in ('bs', 'bd', 'sd'):
        if ok(qq):
            for l in LEP:
                for lp in LEP:
                    for op in ('CL', 'CR'):
                        out.append(op + '_' + qq + 'nu' + l + 'nu' + lp)
                    if qq != 'sd':
                        for op in ('C9', 'C9p', 'C10', 'C10p', 'CS', 'CSp', 'CP', 'CPp'):
                            out.append(op + '_' + qq + l + lp)
    for qq in ('bs', 'bd'):
        if ok(qq):
            for op in ('C7', 'C8', 'C7p', 'C8p'):
                out.append(op + '_' + qq)
    return collections.OrderedDict((k, False) for k in out)


GEN4Q = ['sbuu', 'sbuc', 'sbcu', 'sbcc', 'dbuu', 'dbuc', 'dbcu', 'dbcc',
         'dsuu', 'dsuc', 'dscu', 'dscc', 'sbdd', 'dbss', 'dsbb']
RED4Q = ['sbss', 'dbdd', 'dbds', 'sbsd', 'dsdd', 'dbbb', 'sbbb', 'dsss']


def bern_keys(exclude=''):
    out = []

    def ok(q):
        return not any(x in q for x in exclude)
    for qq in ('sb', 'db', 'ds'):
        if ok(qq):
            for op in ('1', '2', '3', '4', '5', '1p', '2p', '3p'):
                out.append(op + 2 * qq)
    for qq in CC:
        if ok(qq):
            for l in LEP:
                for lp in LEP:
                    for op in ('1', '5', '1p', '5p', '7p'):
                        out.append(op + qq + l + lp)
    for q4 in GEN4Q:
        if ok(q4):
            for i in range(1, 11):
                out.append('%d%s' % (i, q4))
                out.append('%dp%s' % (i, q4))
    for q4 in RED4Q:
        if ok(q4):
            for i in (1, 3, 5, 7, 9):
                out.append('%d%s' % (i, q4))
                out.append('%dp%s' % (i, q4))
    for qq in ('sb', 'db', 'ds'):
        if ok(qq):
            for l in LEP:
                for lp in LEP:
                    for op in ('1', '3', '5', '7', '9', '1p', '3p', '5p', '7p', '9p', 'nu1', 'nu1p'):
                        out.append(op + qq + l + lp)
            for op in ('7gamma', '8g', '7pgamma', '8pg'):
                out.append(op + qq)
    return collections.OrderedDict((k, False) for k in out)


def eos_keys():
    out = []
    for l in ('e', 'mu'):
        for op in ('cVL', 'cVR', 'cSL', 'cSR', 'cT'):
            out.append('b->u%snu%s::%s' % (l, l, op))
        for op in ('c9', "c9'", 'c10', "c10'", 'cS', "cS'", 'cP', "cP'", 'cT', 'cT5'):
            out.append('b->s%s%s::%s' % (l, l, op))
    out += ['b->s::c%d' % i for i in range(1, 7)]
    out += ['b->s::c7', "b->s::c7'", 'b->s::c8', "b->s::c8'"]
    return collections.OrderedDict((k, False) for k in out)


def formflavor_keys():
    out = []
    for qq in ('bs', 'bd', 'sd', 'cu'):
        for op in ('CVLL', 'CSLL', 'CTLL', 'CVLR', 'CVRR', 'CSRR', 'CTRR', 'CSLR'):
            out.append(op + '_' + 2 * qq)
    for qq in ('bs', 'bd'):
        for op in ('CVLL', 'CVRR', 'CVLR', 'CVRL', 'CSLL', 'CSRR', 'CSLR', 'CSRL', 'CTLL', 'CTRR'):
            out.append(op + '_' + qq + 'mm')
    out += ['CVLL_sdnn', 'CVRL_sdnn']
    for qq in ('sb', 'db', 'uu', 'dd'):
        out += [op + '_' + qq for op in ('CAR', 'CGR', 'CAL', 'CGL')]
    for qq in ('mt', 'em', 'et'):
        out += [op + '_' + qq for op in ('CAR', 'CAL')]
    return collections.OrderedDict((k, False) for k in out)


def as_sectors(keys, sector_of, tex=True):
    s = collections.OrderedDict()
    for k, real in keys.items():
        d = collections.OrderedDict()
        if real:
            d['real'] = True
        if tex:
            d['tex'] = 'O_{\\text{%s}}' % k.replace('_', '')
        s.setdefault(sector_of(k), collections.OrderedDict())[k] = d
    return s


def _wet_sector(k):
    # a small number of sectors; assignments are only used structurally
    return 'sector%d' % (sum(map(ord, k)) % 5)


WET_SECTORS = collections.OrderedDict(('sector%d' % i, None) for i in range(5))


def flavorkit_keys(table, table_conj):
    out = list(table) + list(table_conj) + ['AVLL_2231', 'AVRR_2231']
    out += ['K2R_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3) if i != j]
    return collections.OrderedDict((k, False) for k in out)


def all_definitions(flavorkit=None):
    """Yield ('eft', dict) and ('basis', dict) definitions."""
    yield 'eft', dict(eft='SMEFT', sectors=collections.OrderedDict(
        [('dB=dL=0', None), ('dL=2', None), ('dB=dL=1', None)]))
    for e in ('WET', 'WET-4', 'WET-3', 'WET-2'):
        yield 'eft', dict(eft=e, sectors=collections.OrderedDict(WET_SECTORS))
    w = smeft_keys()
    for b in ('Warsaw', 'Warsaw up'):
        yield 'basis', dict(eft='SMEFT', basis=b, sectors=as_sectors(w, smeft_sector))
    yield 'basis', dict(eft='SMEFT', basis='Warsaw mass',
                        sectors=as_sectors(smeft_keys(True), smeft_sector))
    for e, nu, nd, ex in (('WET', 2, 3, ''), ('WET-4', 2, 2, 'b'), ('WET-3', 1, 2, 'bc'),
                          ('WET-2', 1, 1, 'bcs')):
        yield 'basis', dict(eft=e, basis='JMS', sectors=as_sectors(jms_keys(nu, nd), _wet_sector))
        if e != 'WET-2':
            yield 'basis', dict(eft=e, basis='flavio', sectors=as_sectors(flavio_keys(ex), _wet_sector))
            yield 'basis', dict(eft=e, basis='Bern', sectors=as_sectors(bern_keys(ex), _wet_sector))
    yield 'basis', dict(eft='WET', basis='EOS', sectors=as_sectors(eos_keys(), _wet_sector))
    yield 'basis', dict(eft='WET', basis='formflavor', sectors=as_sectors(formflavor_keys(), _wet_sector))
    if flavorkit is not None:
        yield 'basis', dict(eft='WET', basis='FlavorKit',
                            sectors=as_sectors(flavorkit, _wet_sector))


def register_all(wcxf, flavorkit=None):
    for kind, d in all_definitions(flavorkit):
        if kind == 'eft':
            wcxf.EFT(**d)
        else:
            wcxf.Basis(**d)
