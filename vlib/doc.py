"""Generators for file objects: names, metadata, documents."""
import collections
import math

WORDS = ['alpha', 'C9_bsmumu', 'b->s::c7', "c9'", 'CVLL_bsbs', 'phiWB', 'G', 'W', 'll_1221', '1sbsb', '1p', 'K2R_12',
         'yes', 'no', 'on', 'null', 'true', '1e5', '0x1f', '1_000', '007', '12', '.5', '~', 'é', 'ψ̄γψ', '名前', 'a b', ' lead',
         'trail ', 'a: b', 'a #b', '- x', '[x', '{y}', '"q"', "it's", 'tab\there', 'line\nbreak', '\\frac{a}{b}', '%d', '{}', '&a', '*b',
         '!t', '|', '>', '@x', '`c`', '?', ':', 'a,b', '=', '<<', '2018-01-01', '12:30', '1:2:3', 'x' * 90, 'Re', 'Im', '', 'aB', 'Ab', 'ab', 'AB', 'Vcb', 'vCB']


TEX = ('O_7', r'\bar s\gamma^\mu b', r'\frac{1}{2}', 'x', '', r'(\bar l\gamma_\mu l)(\bar q\gamma^\mu q)', r'O_x+h.c.', r'O + \text{h.c.}',
       r'\varphi^\dagger\varphi\, G^A_{\mu\nu}G^{A\mu\nu}', r'\text{Re}\,O', r'\frac{4G_F}{\sqrt{2}}V_{tb}V_{ts}^*\frac{e^2}{16\pi^2}m_b O_S',
       r'O^\dagger', r'C^*', r'(\bar u_L\gamma u_L)(\bar u_L\gamma u_L)', '1', '-O', 'O_{11}', '  O  ', r'\mathcal{O}', 'R', 'C')


def word(rng, i=None):
    return rng.choice(WORDS) if rng.random() < .5 else 'n%d' % (i if i is not None else rng.randint(0, 999))


def names(rng, n):
    out = []
    while len(out) < n:
        x = word(rng, len(out))
        if x not in out and x != '':
            out.append(x)
    return out


def num(rng):
    r = rng.random()
    if r < .15:
        return rng.randint(-10, 10)
    if r < .2:
        return rng.randint(-10**18, 10**18)
    if r < .3:
        return rng.choice((0.1, 1 / 3., 1e-5, 1e16, 1e22, 1.5e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                           -0.1, 123456789.123456789, 1e-17, 0.0, -0.0, 91.1876, 1e5, 100000.0, 1e-10, 12345678901234567890.))
    if r < .65:
        return rng.gauss(0, 1) * 10.**rng.randint(-30, 30)
    return rng.random()


def text(rng):
    r = rng.random()
    if r < .5:
        return word(rng)
    s = ''.join(rng.choice('abc \\{}$_^"\':#-\n\té€𝛼0123&*!|>%@`,[]?') for _ in range(rng.randint(0, 60)))
    return s


def odd(rng):
    """Characters that some readers and writers take for line ends, blanks or marks."""
    return ''.join(rng.choice(('\u2028', '\u2029', '\x85', '\xa0', '\ufeff', '\r', '\x0b', '\x0c', '\x7f', '\x1a', '\u200b', '\ud7ff', '𝛼', 'a', 'b', ' ', '\n', '\t', '\\u2028', '\\n', '\x00', '\x1f'))
                   for _ in range(rng.randint(1, 12)))


def data(rng, depth=2):
    """Any value representable in both formats."""
    r = rng.random()
    if depth <= 0 or r < .5:
        return rng.choice((num, num, text, text, lambda r: rng.choice((True, False, None, [], {}))))(rng)
    if r < .75:
        return [data(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    d = {k: data(rng, depth - 1) for k in names(rng, rng.randint(0, 4))}
    return collections.OrderedDict(d) if rng.random() < .3 else d


def extras(rng, reserved=()):
    d = {}
    if rng.random() < .5:
        d['metadata'] = {'description': text(rng), 'generator': word(rng), 'extra': data(rng)}
    for i in range(rng.choice((0, 0, 1, 3))):
        k = rng.choice(('comment', 'author', 'date', 'info', 'version', 'x%d' % i, 'extra entry', 'naïve'))
        if k not in reserved:
            d[k] = data(rng, 3)
    return d


def meta(rng):
    r = rng.random()
    if r < .15:
        return None
    d = {}
    if r < .3:
        return d
    if rng.random() < .8:
        d['tex'] = rng.choice(TEX) if rng.random() < .7 else text(rng)
    if rng.random() < .4:
        d['real'] = rng.choice((True, False, True, False, None, 0, 1))
    if rng.random() < .1:
        d['note'] = data(rng, 1)
    return d


def sectors(rng, nsec=None, ncoef=6, pool=None, dup=False):
    sn = pool or names(rng, 4)
    s = collections.OrderedDict() if rng.random() < .5 else {}
    used = 0
    for x in sn[:nsec if nsec is not None else rng.randint(0, len(sn))]:
        s[x] = {}
        for j in range(rng.randint(0, ncoef)):
            k = word(rng)
            if k == '':
                continue
            k = k if dup or used == 0 else '%s.%d' % (k, used)
            used += 1
            s[x][k] = meta(rng)
    return s


def same(a, b):
    """Equality that distinguishes bool/number/string and compares floats bitwise."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) and isinstance(b, float) and (a != a or b != b):
            return a != a and b != b
        return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b))
    return type(a) == type(b) and a == b


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def broken(text):
    """A damaged version that neither parser accepts."""
    import yaml
    for cut in (len(text) // 2, len(text) // 3, 1):
        for tail in ('}[', '\n}{[ : "', '\n- a: b: c }', '\n\t@@ {'):
            t = text[:cut] + tail
            try:
                yaml.safe_load(t)
            except yaml.YAMLError:
                return t
    return '}{'
