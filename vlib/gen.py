"""Workload generators: coefficient sets, file values, scales, parameters."""
import collections
import copy
import functools
import math

from . import bases as B
from . import env

STYLES = ('dense', 'mixed', 'sparse', 'single', 'real', 'imag', 'class', 'pair', 'unit', 'ints', 'few',
          'equal', 'cancel', 'orbit', 'perclass')
RELATED = ('equal', 'cancel', 'orbit')      # values that are equal or opposite to each other

# realistic ranges for overridden parameters
RANGES = {
    'm_W': (80.2, 80.6), 'm_Z': (91.0, 91.4), 'GF': (1.15e-5, 1.18e-5), 'alpha_e': (1 / 137.1, 1 / 126.),
    'alpha_s': (0.110, 0.126), 'Vus': (0.20, 0.25), 'Vub': (3e-3, 4.5e-3), 'Vcb': (3.8e-2, 4.5e-2),
    'gamma': (0.3, 2.6), 'm_b': (4.0, 4.6), 'm_s': (0.085, 0.11), 'm_e': (4e-4, 6e-4),
    'm_mu': (0.09, 0.12), 'm_tau': (1.6, 1.9),
}
CKM_PAR = ('Vus', 'Vub', 'Vcb', 'gamma')
SCALES = (2, 2., 4.18, 4.2, 4.8, 5., 10., 80.385, 91.1876, 100, 120., 160., 170., 246.22, 1000., 3000.)


@functools.lru_cache(None)
def keys_of(eft, basis):
    """OrderedDict key -> is_real of a registered basis (our definition)."""
    for kind, d in B.all_definitions(env.flavorkit()):
        if kind == 'basis' and d['eft'] == eft and d['basis'] == basis:
            return collections.OrderedDict((k, bool(m.get('real'))) for s in d['sectors'].values()
                                           for k, m in s.items())
    raise KeyError((eft, basis))


def classof(k):
    """Operator class of a coefficient name (up to flavour)."""
    if '::' in k:
        return k.split('::')[1]
    if '_' in k:
        return k.split('_')[0]
    return k[:2] if k[0].isdigit() or k.startswith('nu1') else k


def scale(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(SCALES)
    if r < .7:
        return round(rng.uniform(2, 200), 3)
    if r < .74:      # just off the usual ones
        return rng.choice(SCALES) * (1 + rng.choice((-1, 1)) * rng.choice((1e-3, 1e-5, 1e-8, 1e-12)))
    if r < .82:      # far from the usual
        return rng.choice((1, 1., .7, .8, .9, 1.2, 1.3, 1.35, 1.5, 1.7, 1.9, 1e4, 14000, 1e5, 1e6, 10**rng.uniform(3.5, 6), rng.uniform(.7, 1), rng.uniform(1.1, 1.5)))
    return 10**rng.uniform(0.31, 3.5)


def params(rng, mode=None):
    mode = mode or rng.choice(['none', 'empty', 'single', 'some', 'all', 'defaults'])
    if mode == 'none':
        return None
    if mode == 'empty':
        return {}
    from .ref import DEFAULTS
    if mode == 'defaults':
        return dict(DEFAULTS)
    names = sorted(RANGES)
    if mode == 'single':
        names = [rng.choice(names)]
    elif mode == 'some':
        names = rng.sample(names, rng.randint(2, 8))
    rng.shuffle(names)
    p = {n: rng.uniform(*RANGES[n]) for n in names}
    for n in names:
        # special values: small CP violation, round numbers, other numeric types
        if rng.random() < .12:
            p[n] = special_param(rng, n)
        elif n == 'gamma' and rng.random() < .3:    # the other quadrants
            p[n] = rng.choice((-1, 1)) * rng.uniform(.1, 6.1)
    if rng.random() < .1:
        p['unrelated'] = 1.5
    return p


def special_param(rng, n):
    x = rng.uniform(*RANGES[n])
    if rng.random() < .3:    # just off the default
        from .ref import DEFAULTS
        return DEFAULTS[n] * (1 + rng.choice((-1, 1)) * rng.choice((1e-2, 1e-3, 1e-4)))
    import numpy as np
    if n == 'gamma':
        return rng.choice((1, 2, np.int64(1), np.int32(2), 1e-3, -1.2, 3.1, 1.5707963267948966, 7.5, -7.5, 1.27 + 2 * math.pi, 10, -20.5))
    if n == 'm_b':
        return rng.choice((4, 4.2, 5, 4.5))
    return rng.choice((np.float64(x), float('%.2g' % x), float('%.3g' % x)))


def number(rng, real, style, lo, hi):
    if style == 'unit':
        m = 10.**((lo + hi) // 2)
        return m if real else complex(m, rng.choice((0, m, -m)))
    if style == 'ints':
        return rng.choice((1, -2, 3)) if real else complex(rng.choice((0, 1, -3)), rng.choice((0, 2, 5))) or 1
    if style == 'mixed':
        m = 10.**rng.uniform(lo, hi)
    else:
        m = 10.**((lo + hi) / 2)
    x, y = m * rng.gauss(0, 1), m * rng.gauss(0, 1)
    if real or style == 'real':
        return x
    if style == 'imag':
        return complex(0, y)
    r = rng.random()
    if r < .1:
        return x
    if r < .15:
        return complex(0, y)
    return complex(x, y)


def orbitof(k):
    """Class and unordered flavour indices."""
    i = k.rsplit('_', 1)[-1] if '_' in k else k[2:]
    return classof(k), ''.join(sorted(i.lower()))


def related(rng, keys, style, lo, hi):
    """Coefficients equal, opposite or conjugate to each other."""
    names = list(keys)
    if style == 'orbit':
        byorb = collections.OrderedDict()
        for k in names:
            byorb.setdefault(orbitof(k), []).append(k)
        big = [o for o in byorb if len(byorb[o]) > 1] or list(byorb)
        sel = rng.sample(big, min(len(big), rng.choice((1, 2, 5, 40))))
        groups = [byorb[o] for o in sel]
    else:
        r = rng.random()
        if r < .4:
            c = {classof(rng.choice(names)) for i in range(rng.choice((1, 1, 2, 3)))}
            names = [k for k in names if classof(k) in c]
        elif r < .7:
            names = rng.sample(names, min(len(names), rng.randint(2, 8)))
        groups = [names]
    C = collections.OrderedDict()
    for g in groups:
        m = 10.**rng.uniform(lo, hi)
        x, y = m * rng.choice((1., rng.gauss(0, 1))), m * rng.choice((1., 0., rng.gauss(0, 1)))
        g = list(g)
        rng.shuffle(g)
        for j, k in enumerate(g):
            v = x if keys[k] or y == 0 else complex(x, y)
            if style == 'cancel':
                v = v * (-1)**j
            elif style == 'orbit':
                v = rng.choice((1, -1)) * v
                if isinstance(v, complex) and rng.random() < .5:
                    v = v.conjugate()
            if v != 0:
                C[k] = v
    return C


def perclass(rng, keys, lo, hi, of=None):
    """Each operator class (or orbit of flavours) with values of its own kind and size."""
    of = of or rng.choice((classof, classof, orbitof, lambda k: k[-2:]))
    kinds = ('absent', 'real', 'imag', 'dense', 'dense', 'equal', 'realequal', 'one', 'sparse', 'negative')
    kind, size = {}, {}
    span = hi - lo
    C = collections.OrderedDict()
    names = list(keys)
    few = rng.random() < .3
    if rng.random() < .5:
        rng.shuffle(names)
    for k in names:
        c = of(k)
        if c not in kind:
            kind[c] = rng.choice(kinds[:1] * 8 + kinds if few else kinds)
            m = 10.**rng.choice((lo + span / 2, lo, hi, rng.uniform(lo, hi)))
            size[c] = [m, complex(m * rng.choice((1., rng.gauss(0, 1))), m * rng.choice((1., -1., rng.gauss(0, 1)))), 0]
        t, (m, x, n) = kind[c], size[c]
        size[c][2] += 1
        if t == 'absent' or t == 'one' and n or t == 'sparse' and rng.random() < .7:
            continue
        if t == 'equal':
            v = x
        elif t == 'realequal':
            v = x.real
        elif t == 'real':
            v = m * rng.gauss(0, 1)
        elif t == 'negative':
            v = -m * abs(rng.gauss(0, 1))
        elif t == 'imag':
            v = complex(0, m * rng.gauss(0, 1))
        else:
            v = complex(m * rng.gauss(0, 1), m * rng.gauss(0, 1))
        if keys[k] and isinstance(v, complex):
            v = v.real or v.imag
        if v != 0:
            C[k] = v
    return C


def coeffs(rng, keys, style=None, lo=-9, hi=-3, pool=None):
    """Random coefficient set over `keys` (name -> is_real)."""
    style = style or rng.choice(STYLES)
    names = list(keys)
    if style in RELATED:
        return related(rng, keys, style, lo, hi)
    if style == 'perclass':
        return perclass(rng, keys, lo, hi)
    if style == 'sparse':
        p = rng.choice((.03, .1, .4))
        names = [k for k in names if rng.random() < p]
    elif style == 'single':
        names = [rng.choice(names)]
    elif style == 'few':
        names = rng.sample(names, min(len(names), rng.randint(2, 6)))
    elif style == 'class':
        c = classof(rng.choice(names))
        names = [k for k in names if classof(k) == c]
    elif style == 'pair':
        c = {classof(rng.choice(names)), classof(rng.choice(names))}
        names = [k for k in names if classof(k) in c]
    if style == 'ints' and hi < 0:
        sc = 10.**((lo + hi) // 2)
    else:
        sc = 1
    rng.shuffle(names)
    st = style if style in ('mixed', 'real', 'imag', 'unit', 'ints') else rng.choice(('dense', 'mixed'))
    C = collections.OrderedDict()
    for k in names:
        x = number(rng, keys[k], st, lo, hi) * sc
        if x != 0:
            C[k] = x
    return C


def noisy(rng, C, keys):
    """Real coefficients with an imaginary part at the level of rounding, as calculations leave them."""
    return type(C)((k, complex(v, abs(v) * rng.choice((-1, 1)) * 10**rng.uniform(-22, -16)))
                   if keys.get(k) and complex(v).imag == 0 and v and rng.random() < .7 else (k, v) for k, v in C.items())


def small(rng, keys, n, sizes=((-9, -3), (-9, -3), (-2, 2), (-30, -20))):
    """Yields n files of one to ten coefficients which together go through the
    basis evenly: unrelated, of one class, of one orbit or neighbours in the basis."""
    names = list(keys)
    byc, byo = {}, {}
    for k in names:
        byc.setdefault(classof(k), []).append(k)
        byo.setdefault(orbitof(k), []).append(k)
    queue = []
    for i in range(n):
        if not queue:
            queue = rng.sample(names, len(names))
        k = queue.pop()
        j = names.index(k)
        pool = rng.choice((names, byc[classof(k)], byo[orbitof(k)], names[max(0, j - 6):j + 6]))
        m = rng.choice((1, 1, 2, 2, 3, rng.randint(4, 10)))
        sel = [k] + [x for x in rng.sample(pool, min(len(pool), m)) if x != k][:m - 1]
        a, b = rng.choice(sizes)
        st = rng.choice(('dense', 'mixed', 'real', 'imag', 'ints', 'unit', 'equal', 'cancel'))
        rng.shuffle(sel)
        x = number(rng, False, 'dense', a, b)
        C = collections.OrderedDict()
        for q, y in enumerate(sel):
            v = number(rng, keys[y], st, a, b) * (10.**((a + b) // 2) if st == 'ints' and b < 0 else 1) if st not in RELATED else x if st == 'equal' else x * (-1)**q
            if keys[y] and isinstance(v, complex):
                v = v.real or v.imag
            if v != 0:
                C[y] = v
        yield C


def value(rng, x, plain=False):
    """A file value that denotes exactly the number x."""
    if isinstance(x, complex) and x.imag != 0:
        re, im = float(x.real), float(x.imag)
        r = 1 if plain else rng.random()
        if re == 0 and r < .5:
            return {'Im': im}
        if r < .1:
            return {'Re': repr(re), 'Im': repr(im)}
        if r < .3:
            return {'Im': im, 'Re': re}
        if r < .4:
            return collections.OrderedDict([('Re', re), ('Im', im)])
        return {'Re': re, 'Im': im}
    re = x.real
    r = 1 if plain else rng.random()
    if r < .08:
        return repr(float(re))
    if r < .16:
        return {'Re': float(re)}
    if r < .24:
        return {'Re': float(re), 'Im': 0}
    if r < .3 and float(re).is_integer() and abs(re) < 1e15:
        return int(re)
    return float(re)


def values(rng, C, plain=False):
    return {k: value(rng, x, plain) for k, x in C.items()}


# -- built-in routes ---------------------------------------------------------
SM = ('SMEFT',)
TRANSLATORS = [('SMEFT', 'Warsaw', 'Warsaw mass'), ('SMEFT', 'Warsaw', 'Warsaw up'),
               ('SMEFT', 'Warsaw up', 'Warsaw'),
               ('WET', 'JMS', 'flavio'), ('WET-4', 'JMS', 'flavio'), ('WET-3', 'JMS', 'flavio'),
               ('WET', 'JMS', 'Bern'), ('WET-4', 'JMS', 'Bern'), ('WET-3', 'JMS', 'Bern'),
               ('WET', 'Bern', 'flavio'), ('WET-4', 'Bern', 'flavio'), ('WET-3', 'Bern', 'flavio'),
               ('WET', 'flavio', 'Bern'), ('WET-4', 'flavio', 'Bern'), ('WET-3', 'flavio', 'Bern'),
               ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'formflavor'),
               ('WET', 'FlavorKit', 'JMS'), ('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'flavio')]
MATCHERS = [('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS'),
            ('SMEFT', 'Warsaw', 'WET', 'flavio'), ('SMEFT', 'Warsaw', 'WET', 'EOS'),
            ('SMEFT', 'Warsaw', 'WET', 'Bern'),
            ('WET', 'flavio', 'WET-4', 'flavio'), ('WET-4', 'flavio', 'WET-3', 'flavio'),
            ('WET', 'Bern', 'WET-4', 'Bern'), ('WET-4', 'Bern', 'WET-3', 'Bern'),
            ('WET', 'JMS', 'WET-4', 'JMS'), ('WET-4', 'JMS', 'WET-3', 'JMS'),
            ('WET-3', 'JMS', 'WET-2', 'JMS')]
ROUTES = TRANSLATORS + MATCHERS
SMEFT_MATCH = MATCHERS[:5]
RESTRICT = MATCHERS[5:]
# routes in which no CKM element is divided by
ZEROCKM = TRANSLATORS[:3] + MATCHERS[:2]


def route_input(rng, route, style=None, lo=None, hi=None):
    """Coefficients of the source basis of a route."""
    keys = keys_of(route[0], route[1])
    if len(route) == 4 and route[0] == 'SMEFT':
        lo, hi = (-12, -6) if lo is None else (lo, hi)
    else:
        lo, hi = (-9, -3) if lo is None else (lo, hi)
    return coeffs(rng, keys, style, lo, hi)


ZEROS = (0, 0., -0., '0', '0.0', {'Re': 0, 'Im': 0}, {'Re': 0., 'Im': 0.}, {'Im': 0}, {'Re': 0}, {'Re': '0', 'Im': -0.})


def add_zeros(rng, keys, vals, prob=.15):
    """Some further coefficients of the basis given explicitly as zero."""
    if rng.random() >= prob:
        return vals
    names = list(keys)
    out = dict(vals)
    for k in rng.sample(names, min(len(names), rng.choice((1, 2, 5, 30)))):
        if k not in out:
            out[k] = copy.copy(rng.choice(ZEROS))
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def make(w, rng, route, C, sc, plain=False):
    return w.WC(route[0], route[1], sc, add_zeros(rng, keys_of(*route[:2]), values(rng, C, plain)))


def apply(wc, route, p=None, noarg=False):
    if len(route) == 3:
        return wc.translate(route[2]) if noarg else wc.translate(route[2], p)
    return wc.match(route[2], route[3]) if noarg else wc.match(route[2], route[3], p)


def rname(route):
    return '/'.join(route)


def consistent(route, C):
    """FlavorKit coefficients of self-conjugate operators must be real."""
    if route[1] != 'FlavorKit':
        return C
    from . import ref
    jms = keys_of('WET', 'JMS')
    D = collections.OrderedDict()
    for k, v in C.items():
        if jms.get(ref.flavorkit_target(k, ref.DEFAULTS)[0]):
            v = complex(v).real or 1e-5
        D[k] = v
    return D
