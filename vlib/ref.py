"""Reference models of the physics content, written independently of the code
under test (different structure: symbolic linear forms over canonical
coefficient names, field-content driven rotations, coupling tables)."""
import functools
import math
import itertools
import numpy as np
import ckmutil.ckm

from . import bases as B
from . import refqcd

PI = math.pi
# documented default parameters (frozen)
DEFAULTS = {
    'm_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9,
    'alpha_s': 0.1185, 'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2,
    'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095, 'm_e': 0.0005109989461,
    'm_mu': 0.1056583745, 'm_tau': 1.77686,
}


def merged(parameters):
    p = dict(DEFAULTS)
    p.update(parameters or {})
    return p


def ckm(p):
    return ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


class Lin:
    """Real-linear form: sum of complex coefficient times (key or conj(key)).
    `a` keeps the sum of absolute values of the terms added, which survives
    symbolic cancellations and sets the rounding tolerance."""
    __slots__ = ('t', 'a')

    def __init__(self, t=None, a=None):
        self.t = t or {}
        self.a = a if a is not None else {k: abs(v) for k, v in self.t.items()}

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        t, a = dict(self.t), dict(self.a)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
            a[k] = a.get(k, 0) + o.a[k]
        return Lin(t, a)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-1) * o

    def __neg__(self):
        return (-1) * self

    def __mul__(self, c):
        m = abs(c)
        return Lin({k: c * v for k, v in self.t.items()}, {k: m * v for k, v in self.a.items()})
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / c)

    def conj(self):
        return Lin({(k, not cc): complex(v).conjugate() for (k, cc), v in self.t.items()},
                   {(k, not cc): v for (k, cc), v in self.a.items()})

    def eval(self, C):
        s, m = 0, 0
        for (k, cc), v in self.t.items():
            x = C.get(k, 0)
            if x == 0:
                continue
            if cc:
                x = x.conjugate()
            s += v * x
            m += self.a[k, cc] * abs(x)
        return s, m


def var(k):
    return Lin({(k, False): 1})


@functools.lru_cache(None)
def _canon(name, ind):
    o = B.orbit(ind, B.jms_generators(name))
    m = min(o)
    # is `ind` the conjugate of m?
    return B.label(name, m), (True in B.orbit(m, B.jms_generators(name))[ind]
                              and False not in B.orbit(m, B.jms_generators(name))[ind])


D = {'d': 1, 's': 2, 'b': 3}
U = {'u': 1, 'c': 2}
L = {'e': 1, 'mu': 2, 'tau': 3}


def J(name, *fl):
    """JMS coefficient with flavour letters or numbers."""
    ind = tuple(f if isinstance(f, int) else D.get(f) or U.get(f) or L[f] for f in fl)
    k, c = _canon(name, ind)
    return Lin({(k, c): 1})


# --- quark sector -----------------------------------------------------------

def jms_df2(q1, q2):
    """Meson mixing operators in the Bern (SUSY) normalization."""
    t = 'u' if q1 in U else 'd'
    VLL, VRR = 'V%s%sLL' % (t, t), 'V%s%sRR' % (t, t)
    V1, V8 = 'V1%s%sLR' % (t, t), 'V8%s%sLR' % (t, t)
    S1, S8 = 'S1%s%sRR' % (t, t), 'S8%s%sRR' % (t, t)

    def f(n):
        return J(n, q1, q2, q1, q2)

    def r(n):
        return J(n, q2, q1, q2, q1).conj()
    return {'1': f(VLL), '1p': f(VRR),
            '2': r(S1) - r(S8) / 6, '3': r(S8) / 2,
            '2p': f(S1) - f(S8) / 6, '3p': f(S8) / 2,
            '4': -f(V8), '5': f(V8) / 3 - 2 * f(V1)}


def jms_cc(u, d, l, lp):
    def c(n):
        return J(n, lp, l, d, u).conj()
    return {'1': c('VnueduLL'), '1p': c('VnueduLR'), '5': c('SnueduRL'),
            '5p': c('SnueduRR'), '7p': c('TnueduRR')}


def fierz4(q):
    """Colour-diagonal/crossed operators F1..F10, F1p..F10p for (q1 q2)(q3 q4)."""
    a, b, c, d = q
    o = {}
    if c in U:      # down-down up-up
        oct_ = lambda n1, n8, *i: (J(n1, *i) - J(n8, *i) / 6, J(n8, *i) / 2)
        o['1'], o['2'] = oct_('V1udLL', 'V8udLL', c, d, a, b)
        o['1p'], o['2p'] = oct_('V1udRR', 'V8udRR', c, d, a, b)
        o['3'], o['4'] = oct_('V1duLR', 'V8duLR', a, b, c, d)
        o['3p'], o['4p'] = oct_('V1udLR', 'V8udLR', c, d, a, b)
        s1, s8 = J('S1udRR', c, d, a, b), J('S8udRR', c, d, a, b)
        x1, x8 = J('S1udduRR', c, b, a, d), J('S8udduRR', c, b, a, d)
        s1p, s8p = J('S1udRR', d, c, b, a).conj(), J('S8udRR', d, c, b, a).conj()
        x1p, x8p = J('S1udduRR', d, a, b, c).conj(), J('S8udduRR', d, a, b, c).conj()
        v1, v8 = J('V1udduLR', d, a, b, c).conj(), J('V8udduLR', d, a, b, c).conj()
        v1p, v8p = J('V1udduLR', c, b, a, d), J('V8udduLR', c, b, a, d)
    else:
        t = 'd'
        o['1'], o['2'] = J('VddLL', c, d, a, b), J('VddLL', a, d, c, b)
        o['1p'], o['2p'] = J('VddRR', c, d, a, b), J('VddRR', a, d, c, b)
        o['3'] = J('V1ddLR', a, b, c, d) - J('V8ddLR', a, b, c, d) / 6
        o['4'] = J('V8ddLR', a, b, c, d) / 2
        o['3p'] = J('V1ddLR', c, d, a, b) - J('V8ddLR', c, d, a, b) / 6
        o['4p'] = J('V8ddLR', c, d, a, b) / 2
        s1, s8 = J('S1ddRR', c, d, a, b), J('S8ddRR', c, d, a, b)
        x1, x8 = J('S1ddRR', c, b, a, d), J('S8ddRR', c, b, a, d)
        s1p, s8p = J('S1ddRR', d, c, b, a).conj(), J('S8ddRR', d, c, b, a).conj()
        x1p, x8p = J('S1ddRR', d, a, b, c).conj(), J('S8ddRR', d, a, b, c).conj()
        v1, v8 = J('V1ddLR', a, d, c, b), J('V8ddLR', a, d, c, b)
        v1p, v8p = J('V1ddLR', c, b, a, d), J('V8ddLR', c, b, a, d)
    for p, s1_, s8_, x1_, x8_, v1_, v8_ in (('', s1, s8, x1, x8, v1, v8),
                                            ('p', s1p, s8p, x1p, x8p, v1p, v8p)):
        crossed = x1_ - x8_ / 6        # colour-crossed part of the exchanged scalar
        o['5' + p] = s1_ - s8_ / 6 - x8_ / 4
        o['6' + p] = s8_ / 2 - crossed / 2
        o['7' + p] = -v8_
        o['8' + p] = v8_ / 3 - 2 * v1_
        o['9' + p] = -x8_ / 16
        o['10' + p] = -crossed / 8
    return o


def bern4(q):
    F = fierz4(q)
    red = q in B.RED4Q
    o = {}
    swap = red and q not in ('dbbb', 'sbbb', 'dsss')   # scalar blocks exchanged
    for p in ('', 'p'):
        ps = {'': 'p', 'p': ''}[p] if swap else p
        for base, (a, b) in (('1', ('1', '3')), ('5', ('5', '7'))):
            pp = p if base == '1' else ps
            # combination of colour-diagonal and colour-crossed operators
            def tot(i, j):
                x = F[i + pp]
                if not red:
                    x = x + F[j + pp] / 3
                return x
            if base == '1':
                A, C = tot('1', '2'), tot('3', '4')
                o['1' + p] = 4 * C / 3 - A / 3
                o['3' + p] = (A - C) / 12
                if not red:
                    o['2' + p] = (8 * F['4' + pp] - 2 * F['2' + pp]) / 3
                    o['4' + p] = (F['2' + pp] - F['4' + pp]) / 6
            else:
                A, C, T = tot('5', '6'), tot('7', '8'), tot('9', '10')
                o['5' + p] = 4 * C / 3 - A / 3
                o['7' + p] = (A - C) / 3 + T
                o['9' + p] = (A - C) / 48
                if not red:
                    o['6' + p] = (8 * F['8' + pp] - 2 * F['6' + pp]) / 3
                    o['8' + p] = 2 * F['10' + pp] + (F['6' + pp] - F['8' + pp]) * (2 / 3)
                    o['10' + p] = (F['6' + pp] - F['8' + pp]) / 24
    return o


def fierz_lep(q1, q2, l, lp):
    """Vector/axial, scalar/pseudoscalar, tensor semileptonic coefficients."""
    LL, LR = J('VedLL', l, lp, q1, q2), J('VdeLR', q1, q2, l, lp)   # quark L
    RR, RL = J('VedRR', l, lp, q1, q2), J('VedLR', l, lp, q1, q2)   # quark R
    s = J('SedRR', l, lp, q1, q2)
    s_ = J('SedRL', lp, l, q2, q1).conj()
    sp = J('SedRL', l, lp, q1, q2)
    sp_ = J('SedRR', lp, l, q2, q1).conj()
    t, tc = J('TedRR', l, lp, q1, q2), J('TedRR', lp, l, q2, q1).conj()
    return {'9': (LR + LL) / 2, '10': (LR - LL) / 2, '9p': (RR + RL) / 2, '10p': (RR - RL) / 2,
            'S': (s + s_) / 2, 'P': (s - s_) / 2, 'Sp': (sp + sp_) / 2, 'Pp': (sp - sp_) / 2,
            'T': (t + tc) / 2, 'T5': (t - tc) / 2,
            'nu': J('VnudLL', l, lp, q1, q2), 'nup': J('VnudLR', l, lp, q1, q2)}


def fierz_dip(q1, q2):
    return {'7': J('dgamma', q1, q2), '7p': J('dgamma', q2, q1).conj(),
            '8': J('dG', q1, q2), '8p': J('dG', q2, q1).conj()}


def running(p, scale):
    return dict(mb=refqcd.m_b(p['m_b'], scale, 5, p['alpha_s']),
                ms=refqcd.m_s(p['m_s'], scale, 5, p['alpha_s']),
                gs=math.sqrt(4 * PI * refqcd.alpha_s(scale, 5, p['alpha_s'])),
                e=math.sqrt(4 * PI * p['alpha_e']))


def bern_lep_from_fierz(f):
    return {'1': f['9'] + f['10'] * (5 / 3), '3': f['10'] * (-1 / 6),
            '1p': f['9p'] - f['10p'] * (5 / 3), '3p': f['10p'] * (1 / 6),
            '5': f['S'] - f['P'] * (5 / 3), '9': f['P'] / 24,
            '5p': f['Sp'] + f['Pp'] * (5 / 3), '9p': f['Pp'] * (-1 / 24),
            '7': f['P'] * (2 / 3) + f['T'] + f['T5'],
            '7p': f['Pp'] * (-2 / 3) + f['T'] - f['T5'],
            'nu1': f['nu'], 'nu1p': f['nup']}


def fierz_lep_from_bern(b):
    return {'9': b['1'] + 10 * b['3'], '10': -6 * b['3'],
            '9p': b['1p'] + 10 * b['3p'], '10p': 6 * b['3p'],
            'S': b['5'] + 40 * b['9'], 'P': 24 * b['9'],
            'Sp': b['5p'] + 40 * b['9p'], 'Pp': -24 * b['9p'],
            'T': (b['7'] + b['7p']) / 2 - 8 * b['9'] - 8 * b['9p'],
            'T5': (b['7'] - b['7p']) / 2 - 8 * b['9'] + 8 * b['9p'],
            'nu': b['nu1'], 'nup': b['nu1p']}


LEPP = [(l, lp) for l in B.LEP for lp in B.LEP]


def _norm(p):
    return math.sqrt(2) / p['GF'] / 4          # 1 / (4 GF / sqrt 2)


def jms_to_bern(scale, p):
    R = running(p, scale)
    N = _norm(p)
    o = {}
    for q in ('sb', 'db', 'ds'):
        for k, v in jms_df2(*q).items():
            o[k + 2 * q] = v
    for u, d in B.CC:
        for l, lp in LEPP:
            for k, v in jms_cc(u, d, l, lp).items():
                o[k + u + d + l + lp] = v
    for q in B.GEN4Q + B.RED4Q:
        for k, v in bern4(q).items():
            o[k + q] = v
    for q in ('sb', 'db', 'ds'):
        for l, lp in LEPP:
            for k, v in bern_lep_from_fierz(fierz_lep(q[0], q[1], l, lp)).items():
                o[k + q + l + lp] = v
        f = fierz_dip(*q)
        for s in ('', 'p'):
            o['7' + s + 'gamma' + q] = f['7' + s] * (R['gs']**2 / R['e'] / R['mb'])
            o['8' + s + 'g' + q] = f['8' + s] * (R['gs'] / R['mb'])
    return {k: v * N for k, v in o.items()}


def _xi(p, q):
    V = ckm(p)
    return V[2, D[q[1]] - 1] * V[2, D[q[0]] - 1].conj()


def _df2_to_flavio(b, ff=False):
    sgn = 0.5 if ff else -0.5
    return {'CVLL': b['1'], 'CVRR': b['1p'], 'CVLR': b['5'] * (-0.5), 'CSLR': b['4'],
            'CSLL': b['2'] + b['3'] * sgn, 'CSRR': b['2p'] + b['3p'] * sgn,
            'CTLL': b['3'] * (-1 / 8), 'CTRR': b['3p'] * (-1 / 8)}


def _flavio_from_parts(scale, p, df2, cc, lep, dip):
    """df2(q), cc(u,d,l,lp), lep(q,l,lp), dip(q): Lagrangian coefficients."""
    R = running(p, scale)
    V = ckm(p)
    N = _norm(p)
    o = {}
    for q in ('sb', 'db', 'ds'):
        for k, v in _df2_to_flavio(df2(q)).items():
            o[k + '_' + 2 * q[::-1]] = v
    names = {'1': 'CVL', '1p': 'CVR', '5': 'CSR', '5p': 'CSL', '7p': 'CT'}
    for u, d in B.CC:
        for l, lp in LEPP:
            for k, v in cc(u, d, l, lp).items():
                o['%s_%s%s%snu%s' % (names[k], d, u, l, lp)] = v * (-N / V[U[u] - 1, D[d] - 1])
    for q in ('sb', 'db', 'ds'):
        X = N / _xi(p, q)
        ew = 16 * PI**2 / R['e']**2 * X
        for l, lp in LEPP:
            f = lep(q, l, lp)
            o['CL_%snu%snu%s' % (q[::-1], l, lp)] = f['nu'] * (ew / 2)
            o['CR_%snu%snu%s' % (q[::-1], l, lp)] = f['nup'] * (ew / 2)
            if q != 'ds':
                for k in ('9', '10', '9p', '10p'):
                    o['C%s_%s%s%s' % (k, q[::-1], l, lp)] = f[k] * ew
                for k in ('S', 'P', 'Sp', 'Pp'):
                    o['C%s_%s%s%s' % (k, q[::-1], l, lp)] = f[k] * (ew / R['mb'])
        if q != 'ds':
            f = dip(q)
            for s in ('', 'p'):
                o['C7%s_%s' % (s, q[::-1])] = f['7' + s] * (16 * PI**2 / R['e'] / R['mb'] * X)
                o['C8%s_%s' % (s, q[::-1])] = f['8' + s] * (16 * PI**2 / R['gs'] / R['mb'] * X)
    return o


def jms_to_flavio(scale, p):
    return _flavio_from_parts(scale, p, lambda q: jms_df2(*q), jms_cc,
                              lambda q, l, lp: fierz_lep(q[0], q[1], l, lp), lambda q: fierz_dip(*q))


def bern_to_flavio(scale, p):
    R = running(p, scale)
    N = _norm(p)
    b = lambda k: var(k) / N

    def df2(q):
        return {k: b(k + 2 * q) for k in ('1', '2', '3', '4', '5', '1p', '2p', '3p')}

    def cc(u, d, l, lp):
        return {k: b(k + u + d + l + lp) for k in ('1', '1p', '5', '5p', '7p')}

    def lep(q, l, lp):
        return fierz_lep_from_bern({k: b(k + q + l + lp) for k in (
            '1', '3', '5', '7', '9', '1p', '3p', '5p', '7p', '9p', 'nu1', 'nu1p')})

    def dip(q):
        o = {}
        for s in ('', 'p'):
            o['7' + s] = b('7' + s + 'gamma' + q) / (R['gs']**2 / R['e'] / R['mb'])
            o['8' + s] = b('8' + s + 'g' + q) / (R['gs'] / R['mb'])
        return o
    return _flavio_from_parts(scale, p, df2, cc, lep, dip)


def flavio_to_bern(scale, p):
    R = running(p, scale)
    V = ckm(p)
    N = _norm(p)
    o = {}
    for q in ('sb', 'db', 'ds'):
        c = lambda k: var(k + '_' + 2 * q[::-1])
        o['1' + 2 * q], o['1p' + 2 * q] = c('CVLL'), c('CVRR')
        o['4' + 2 * q], o['5' + 2 * q] = c('CSLR'), c('CVLR') * (-2)
        for s, n in (('', 'LL'), ('p', 'RR')):
            o['2' + s + 2 * q] = c('CS' + n) - c('CT' + n) * 4
            o['3' + s + 2 * q] = c('CT' + n) * (-8)
    for u, d in B.CC:
        for l, lp in LEPP:
            for k, n in (('1', 'CVL'), ('1p', 'CVR'), ('5', 'CSR'), ('5p', 'CSL'), ('7p', 'CT')):
                o[k + u + d + l + lp] = var('%s_%s%s%snu%s' % (n, d, u, l, lp)) * (-V[U[u] - 1, D[d] - 1] / N)
    zero = Lin()
    for q in ('sb', 'db', 'ds'):
        X = _xi(p, q) / N
        ew = R['e']**2 / (16 * PI**2) * X
        for l, lp in LEPP:
            f = {k: zero for k in ('9', '10', '9p', '10p', 'S', 'P', 'Sp', 'Pp', 'T', 'T5')}
            f['nu'] = var('CL_%snu%snu%s' % (q[::-1], l, lp)) * (2 * ew)
            f['nup'] = var('CR_%snu%snu%s' % (q[::-1], l, lp)) * (2 * ew)
            if q != 'ds':
                for k in ('9', '10', '9p', '10p'):
                    f[k] = var('C%s_%s%s%s' % (k, q[::-1], l, lp)) * ew
                for k in ('S', 'P', 'Sp', 'Pp'):
                    f[k] = var('C%s_%s%s%s' % (k, q[::-1], l, lp)) * (ew * R['mb'])
            for k, v in bern_lep_from_fierz(f).items():
                o[k + q + l + lp] = v
        if q != 'ds':
            for s in ('', 'p'):
                o['7' + s + 'gamma' + q] = var('C7%s_%s' % (s, q[::-1])) * (R['gs']**2 * X / (16 * PI**2))
                o['8' + s + 'g' + q] = var('C8%s_%s' % (s, q[::-1])) * (R['gs']**2 * X / (16 * PI**2))
    return {k: v * N for k, v in o.items()}


def jms_to_eos(scale, p):
    R = running(p, scale)
    V = ckm(p)
    N = _norm(p)
    X = N / _xi(p, 'sb')
    o = {}
    for l in ('e', 'mu'):
        for k, v in jms_cc('u', 'b', l, l).items():
            n = {'1': 'cVL', '1p': 'cVR', '5': 'cSR', '5p': 'cSL', '7p': 'cT'}[k]
            o['b->u%snu%s::%s' % (l, l, n)] = v * (-N / V[0, 2])
        f = fierz_lep('s', 'b', l, l)
        for k in ('9', '10', 'S', 'P', 'T', 'T5', '9p', '10p', 'Sp', 'Pp'):
            n = 'c' + k.replace('p', "'")
            o['b->s%s%s::%s' % (l, l, n)] = f[k] * (16 * PI**2 / R['e']**2 * X)
    F = {q: fierz4('sb' + q) for q in ('uu', 'dd', 'cc', 'ss', 'bb')}
    allq = lambda i: F['uu'][i] + F['cc'][i] + F['dd'][i] + F['ss'][i] + F['bb'][i]
    up = lambda i: F['uu'][i] + F['cc'][i]
    sb1 = F['ss']['1'] + F['bb']['1']
    d1, d2 = F['dd']['1'], F['dd']['2']
    f3, f4 = allq('3'), allq('4')
    o['b->s::c1'] = (up('1') - sb1 * 0.4 - d1 * 1.2 + d2 * 0.8) * X
    o['b->s::c2'] = (up('1') / 6 + up('2') / 2 - sb1 * (4 / 15) + d1 / 5 - d2 * (7 / 15)) * X
    o['b->s::c3'] = (f3 * (4 / 15) + f4 * (4 / 45) - sb1 * (4 / 45) - d1 * (7 / 45) + d2 / 15) * X
    o['b->s::c4'] = (f4 * (8 / 15) - sb1 * (2 / 15) + d1 * (4 / 15) - d2 * 0.4) * X
    o['b->s::c5'] = (sb1 / 45 + d1 * (7 / 180) - d2 / 60 - f3 / 60 - f4 / 180) * X
    o['b->s::c6'] = (sb1 / 30 - d1 / 15 + d2 / 10 - f4 / 30) * X
    f = fierz_dip('s', 'b')
    den = R['mb']**2 - R['ms']**2
    for n, g in (('7', R['e']), ('8', R['gs'])):
        a, b_ = f[n], f[n + 'p']
        w = 16 * PI**2 / g / den * X
        o['b->s::c' + n] = (a * R['mb'] - b_ * R['ms']) * w
        o['b->s::c' + n + "'"] = (b_ * R['mb'] - a * R['ms']) * w
    return o


def jms_to_formflavor(scale, p):
    R = running(p, scale)
    o = {}
    for q in ('sb', 'db', 'ds', 'uc'):
        for k, v in _df2_to_flavio(jms_df2(*q), ff=True).items():
            o[k + '_' + 2 * q[::-1]] = v
    m = 'mu'
    for q in ('sb', 'db'):
        a, b = q
        t = '_' + q[::-1] + 'mm'
        o['CVLL' + t], o['CVRR' + t] = J('VedLL', m, m, a, b), J('VedRR', m, m, a, b)
        o['CVLR' + t], o['CVRL' + t] = J('VdeLR', a, b, m, m), J('VedLR', m, m, a, b)
        o['CSRR' + t], o['CSLL' + t] = J('SedRR', m, m, a, b), J('SedRR', m, m, b, a).conj()
        o['CSLR' + t], o['CSRL' + t] = J('SedRL', m, m, a, b), J('SedRL', m, m, b, a).conj()
        o['CTRR' + t], o['CTLL' + t] = J('TedRR', m, m, a, b), J('TedRR', m, m, b, a).conj()
    for n, c in (('CVLL_sdnn', 'VnudLL'), ('CVRL_sdnn', 'VnudLR')):
        o[n] = (J(c, 1, 1, 'd', 's') + J(c, 2, 2, 'd', 's') + J(c, 3, 3, 'd', 's')) / 3
    e, gs = R['e'], R['gs']
    for t, (i, j), cl in (('sb', ('s', 'b'), 'd'), ('db', ('d', 'b'), 'd'), ('dd', ('d', 'd'), 'd'), ('uu', ('u', 'u'), 'u')):
        o['CAR_' + t], o['CAL_' + t] = J(cl + 'gamma', i, j) / e, J(cl + 'gamma', j, i).conj() / e
        o['CGR_' + t], o['CGL_' + t] = J(cl + 'G', i, j) / gs, J(cl + 'G', j, i).conj() / gs
    for t, (i, j) in (('mt', (2, 3)), ('em', (1, 2)), ('et', (1, 3))):
        o['CAR_' + t], o['CAL_' + t] = J('egamma', i, j) / e, J('egamma', j, i).conj() / e
    return o


# --- FlavorKit --------------------------------------------------------------
_FKP = dict(ASRR='SeeRR', AVLL='VeeLL', AVLR='VeeLR', AVRR='VeeRR', BSRL='SedRL', BSRR='SedRR',
            BTRR='TedRR', BVLL='VedLL', BVLR='VedLR', BVRR='VedRR', CSRL='SeuRL', CSRR='SeuRR',
            CTRR='TeuRR', CVLL='VeuLL', CVLR='VeuLR', CVRR='VeuRR', DSRR='S1ddRR', DVLL='VddLL',
            DVLR='V1ddLR', DVRR='VddRR', EVLR='VdeLR')
_FKQ = dict(DVRL='V1ddLR', ESLR='SedRL', ESRR='SedRR', ETRR='TedRR', EVLL='VedLL', EVRL='VedLR',
            EVRR='VedRR', FVLL='VnudLL', FVRL='VnudLR')
_FKC = dict(GSLL='SnueduRR', GSRL='SnueduRL', GVLL='VnueduLL', GVRL='VnueduLR')


def flavorkit_target(k, p):
    """FlavorKit name -> (JMS label, conjugated?, factor)."""
    n, s = k.split('_')
    i = tuple(int(c) for c in s)
    if n == 'K2R':
        m = {1: p['m_e'], 2: p['m_mu'], 3: p['m_tau']}[i[0]]
        return 'egamma_%d%d' % (i[1], i[0]), False, 0.5 * math.sqrt(4 * PI * p['alpha_e']) * m
    if n in ('Q1R', 'Q2R'):
        return '%s_%d%d' % ({'Q1R': 'dgamma', 'Q2R': 'dG'}[n], i[1], i[0]), False, 1
    if n in _FKP:
        c, perm, conj = _FKP[n], (1, 0, 3, 2), False
    elif n in _FKQ:
        c, perm, conj = _FKQ[n], (3, 2, 1, 0), False
    else:
        c, perm, conj = _FKC[n], (2, 3, 0, 1), True
    lab, cc = _canon(c, tuple(i[x] for x in perm))
    return lab, cc ^ conj, 1


# --- SMEFT ------------------------------------------------------------------

def smeft_full(C):
    """Full tensors of every class from non-redundant coefficients."""
    out = {}
    for k in B.SMEFT_0F:
        out[k] = complex(C.get(k, 0)).real
    names = list(B.SMEFT_2F) + list(B.SMEFT_4F)
    arr = {n: np.zeros((3,) * len(B.FIELDS[n]), dtype=complex) for n in names}
    for n in names:
        a = arr[n]
        if n == 'qqql':
            _fill_qqql(a, C)
            continue
        for ind, rep, conj in _orbit_table(n):
            v = C.get(rep, 0)
            if v:
                if conj is None:
                    v = complex(v).real
                elif conj:
                    v = complex(v).conjugate()
                a[ind] = v
    out.update(arr)
    return out


@functools.lru_cache(None)
def _orbit_table(n):
    t = []
    gens = B.smeft_generators(n)
    for ind in itertools.product((1, 2, 3), repeat=len(B.FIELDS[n])):
        o = B.orbit(ind, gens)
        rep = min(o)
        flags = B.orbit(rep, gens)[ind]
        conj = None if flags == {True, False} else (True in flags)
        t.append((tuple(i - 1 for i in ind), B.label(n, rep), conj))
    return t


def _fill_qqql(a, C):
    for p, r, s, t in itertools.product((1, 2, 3), repeat=4):
        k = 'qqql_%d%d%d%d' % (p, r, s, t)
        a[p - 1, r - 1, s - 1, t - 1] = C.get(k, 0)
    # C_prst + C_rpst = C_sprt + C_srpt fixes the redundant ones
    for t in range(3):
        x = a[:, :, :, t]
        for i, j in ((0, 1), (0, 2), (1, 2)):
            # indices {i,i,j} and {i,j,j}
            # p=r=i,s=j: 2 x[i,i,j] = 2 x[j,i,i]
            x[j, i, i] = x[i, i, j]
            # p=r=j,s=i: 2 x[j,j,i] = 2 x[i,j,j]
            x[j, j, i] = x[i, j, j]
        # all different: solve the relation for the two redundant entries
        x[2, 0, 1] = x[1, 2, 0] + x[1, 0, 2] - x[0, 2, 1]
        x[2, 1, 0] = x[0, 2, 1] + x[0, 1, 2] - x[1, 2, 0]


def rotate(T, name, Uq):
    """Rotate the q indices of a tensor: q -> Uq q."""
    sub = 'ijkl'[:T.ndim]
    ops, spec = [], []
    outs = 'abcd'[:T.ndim]
    o = list(sub)
    for pos, (f, bar) in enumerate(B.FIELDS[name]):
        if f == 'q':
            spec.append(sub[pos] + outs[pos])
            ops.append(Uq.conj() if bar else Uq)
            o[pos] = outs[pos]
    if not ops:
        return T
    return np.einsum(','.join(spec + [sub]) + '->' + ''.join(o), *ops, T)


def smeft_out(full, keys):
    """Coefficients `keys` (non-redundant names) of full tensors."""
    o = {}
    for k in keys:
        n, _, i = k.partition('_')
        o[k] = full[n][tuple(int(c) - 1 for c in i)] if i else full[n]
    return o


@functools.lru_cache(None)
def _wkeys(mass=False):
    return B.smeft_keys(mass)


def warsaw_rotated(C, p, up):
    """Warsaw -> Warsaw up (up=True) or back."""
    V = ckm(p)
    Uq = V.conj().T if up else V
    full = smeft_full(C)
    absC = smeft_full({k: abs(v) for k, v in C.items()})
    names = {k.split('_')[0] for k in C}
    out, scale = {}, {}
    for n in names:
        if n in B.FIELDS:
            full[n] = rotate(full[n], n, Uq)
            absC[n] = rotate(np.abs(absC[n]), n, np.abs(Uq))
    keys = [k for k in _wkeys() if k.split('_')[0] in names]
    return smeft_out(full, keys), smeft_out(absC, keys)


def warsaw_mass(C, p):
    V = ckm(p)
    out = {k: v for k, v in C.items() if k.split('_')[0] != 'llphiphi'}
    sc = {k: abs(v) for k, v in out.items()}
    for n in ('uphi', 'uG', 'uW', 'uB'):
        M = np.zeros((3, 3), dtype=complex)
        for i in range(3):
            for j in range(3):
                M[i, j] = C.get('%s_%d%d' % (n, i + 1, j + 1), 0)
        R, A = V @ M, np.abs(V) @ np.abs(M)
        for i in range(3):
            for j in range(3):
                out['%s_%d%d' % (n, i + 1, j + 1)] = R[i, j]
                sc['%s_%d%d' % (n, i + 1, j + 1)] = A[i, j]
    M = np.zeros((3, 3), dtype=complex)
    for i in range(3):
        for j in range(i, 3):
            M[i, j] = M[j, i] = C.get('llphiphi_%d%d' % (i + 1, j + 1), 0)
    sv = np.sort(np.linalg.svd(M, compute_uv=False)) if M.any() else np.zeros(3)
    for i in range(3):
        out['llphiphi_%d%d' % (i + 1, i + 1)] = sv[i]
        sc['llphiphi_%d%d' % (i + 1, i + 1)] = sv[2] * 1e-3     # 1e-12 of the largest
    return out, sc


# --- SMEFT -> WET matching (tree level, 1709.04486) ---------------------------

def _smeft_eval(T, p):
    """Full WET tensors in the up-aligned flavour basis for full SMEFT tensors T."""
    I = np.eye(3)
    mW, mZ = p['m_W'], p['m_Z']
    e0 = math.sqrt(4 * PI * p['alpha_e'])
    dG = math.sqrt(2) / 4 * (2 * (T['phil3'][0, 0] + T['phil3'][1, 1]) - T['ll'][0, 1, 1, 0] - T['ll'][1, 0, 0, 1])
    v2 = 1 / (math.sqrt(2) * abs(p['GF'] - dG))
    v = math.sqrt(v2)
    x = T['phiWB'] * v2
    g2 = 2 * mW / v
    r = math.sqrt(g2**2 - e0**2)
    g1 = e0 * g2 / r + e0**2 * g2 / r**2 * x
    G = math.hypot(g1, g2)
    mix = x / 2 * (g2**2 - g1**2) / G**2
    s = g1 / G * (1 + mix * g2 / g1)
    c = g2 / G * (1 - mix * g1 / g2)
    e = g2 * (s - c * x / 2)
    gz2 = (e / (s * c) * (1 + G**2 / (2 * g1 * g2) * x))**2
    kz, kw = gz2 / mZ**2, g2**2 / (2 * mW**2)
    h = v2 / 2
    # Z couplings: T3 - Q s^2 plus Higgs-current corrections
    Z = {
        'nL': I / 2 - h * (T['phil1'] - T['phil3']),
        'eL': I * (-0.5 + s**2) - h * (T['phil1'] + T['phil3']),
        'eR': I * s**2 - h * T['phie'],
        'uL': I * (0.5 - 2 / 3 * s**2) - h * (T['phiq1'] - T['phiq3']),
        'uR': I * (-2 / 3 * s**2) - h * T['phiu'],
        'dL': I * (-0.5 + 1 / 3 * s**2) - h * (T['phiq1'] + T['phiq3']),
        'dR': I * (1 / 3 * s**2) - h * T['phid'],
    }
    wl, wq, wr = I + v2 * T['phil3'], I + v2 * T['phiq3'], h * T['phiud']
    o = {}

    def out(a, b):           # a_pr b_st
        return a[:, :, None, None] * b[None, None, :, :]

    def cross(a, b):         # a_pt b_sr
        return np.transpose(out(a, b), (0, 3, 2, 1))

    def swap(t):             # t_stpr
        return np.transpose(t, (2, 3, 0, 1))

    def exch(t):             # t_ptsr
        return np.transpose(t, (0, 3, 2, 1))
    # dipoles
    o['egamma'] = v / math.sqrt(2) * (c * T['eB'] - s * T['eW'])
    o['ugamma'] = v / math.sqrt(2) * (c * T['uB'] + s * T['uW'])
    o['dgamma'] = v / math.sqrt(2) * (c * T['dB'] - s * T['dW'])
    o['uG'] = v / math.sqrt(2) * T['uG']
    o['dG'] = v / math.sqrt(2) * T['dG']
    o['G'], o['Gtilde'] = T['G'], T['Gtilde']
    # four identical leptons: Z exchange in both channels
    for n, ct, z in (('VnunuLL', 'll', 'nL'), ('VeeLL', 'll', 'eL'), ('VeeRR', 'ee', 'eR')):
        o[n] = T[ct] - kz / 4 * (out(Z[z], Z[z]) + cross(Z[z], Z[z]))
    # four identical quarks
    qq = T['qq1'] + T['qq3']
    for n, ct, z in (('VuuLL', qq, 'uL'), ('VddLL', qq, 'dL'), ('VuuRR', T['uu'], 'uR'), ('VddRR', T['dd'], 'dR')):
        o[n] = ct - kz / 2 * out(Z[z], Z[z])
    # different neutral currents
    lp, lm = T['lq1'] + T['lq3'], T['lq1'] - T['lq3']
    for n, ct, a, b in (('VnuuLL', lp, 'nL', 'uL'), ('VnudLL', lm, 'nL', 'dL'),
                        ('VeuLL', lm, 'eL', 'uL'), ('VedLL', lp, 'eL', 'dL'),
                        ('VeuRR', T['eu'], 'eR', 'uR'), ('VedRR', T['ed'], 'eR', 'dR'),
                        ('VnueLR', T['le'], 'nL', 'eR'), ('VeeLR', T['le'], 'eL', 'eR'),
                        ('VnuuLR', T['lu'], 'nL', 'uR'), ('VnudLR', T['ld'], 'nL', 'dR'),
                        ('VeuLR', T['lu'], 'eL', 'uR'), ('VedLR', T['ld'], 'eL', 'dR'),
                        ('VueLR', T['qe'], 'uL', 'eR'), ('VdeLR', T['qe'], 'dL', 'eR'),
                        ('V1uuLR', T['qu1'], 'uL', 'uR'), ('V1udLR', T['qd1'], 'uL', 'dR'),
                        ('V1duLR', T['qu1'], 'dL', 'uR'), ('V1ddLR', T['qd1'], 'dL', 'dR'),
                        ('V1udRR', T['ud1'], 'uR', 'dR')):
        o[n] = ct - kz * out(Z[a], Z[b])
    o['V8uuLR'] = o['V8duLR'] = T['qu8']
    o['V8udLR'] = o['V8ddLR'] = T['qd8']
    o['V8udRR'] = T['ud8']
    # W exchange in neutral-looking (crossed) form
    def W(a):                # a_pt conj(a)_rs
        return np.transpose(out(a, a.conj()), (0, 2, 3, 1))
    o['VnueLL'] = T['ll'] + swap(T['ll']) - kz * out(Z['nL'], Z['eL']) - kw * W(wl)
    x3 = exch(T['qq3'])
    x3 = x3 + swap(x3)
    q13 = T['qq1'] - T['qq3']
    o['V1udLL'] = q13 + swap(q13) + 2 / 3 * x3 - kz * out(Z['uL'], Z['dL']) - kw / 3 * W(wq)
    o['V8udLL'] = 4 * x3 - 2 * kw * W(wq)
    o['V1udRR'] = o['V1udRR'] - kw / 3 * W(wr)
    o['V8udRR'] = o['V8udRR'] - 2 * kw * W(wr)
    # charged currents
    dag = lambda m: m.conj().T
    o['VnueduLL'] = 2 * T['lq3'] - kw * out(wl, dag(wq))
    o['VnueduLR'] = -kw * out(wl, dag(wr))
    o['V1udduLR'] = -kw * out(wq, dag(wr))
    # scalars and tensors
    o['SedRL'] = o['SnueduRL'] = T['ledq']
    o['SnueduRR'], o['SeuRR'] = T['lequ1'], -T['lequ1']
    o['TnueduRR'], o['TeuRR'] = T['lequ3'], -T['lequ3']
    for i in '18':
        o['S%sudRR' % i] = T['quqd' + i]
        o['S%sudduRR' % i] = -swap(T['quqd' + i])
    z4 = np.zeros((3, 3, 3, 3))
    for n, fl in B.JMS.items():
        if n not in o:
            o[n] = z4
    return o


# position of left-handed down quarks in each class: (index position, barred?)
def _dl_positions(n):
    fl = B.JMS[n]
    if n in ('dgamma', 'dG'):
        return [(0, True)]
    if n[0] == 'V':
        ch = n[-2:]
        pos = []
        for cur in (0, 1):
            if ch[cur] == 'L':
                for i in (0, 1):
                    if fl[2 * cur + i] == 'd':
                        pos.append((2 * cur + i, i == 0))
        return pos
    if n[0] in 'ST' and len(fl) == 4:
        # (bar L R)(bar L R) for RR;  (bar L R)(bar R L) for RL
        pos = []
        if fl[0] == 'd':
            pos.append((0, True))
        if n.endswith('RR') and fl[2] == 'd':
            pos.append((2, True))
        if n.endswith('RL') and fl[3] == 'd':
            pos.append((3, False))
        return pos
    return []


def _rot_down(o, V):
    r = {}
    for n, T in o.items():
        if n in B.JMS:
            for pos, bar in _dl_positions(n):
                T = np.moveaxis(np.tensordot(V.conj() if bar else V, T, axes=(0, pos)), 0, pos)
        r[n] = T
    return r


@functools.lru_cache(None)
def _jkeys(nu=2, nd=3):
    return B.jms_keys(nu, nd)


def match_jms(C, p, warsaw_up):
    V = ckm(p)
    T = smeft_full(C)
    if not warsaw_up:
        T = {n: rotate(t, n, V.conj().T) if n in B.FIELDS else t for n, t in T.items()}
    zero = {n: 0 * t for n, t in T.items()}
    a, b = _smeft_eval(T, p), _smeft_eval(zero, p)
    o = _rot_down({n: a[n] - b[n] for n in a}, V)
    return smeft_out(o, _jkeys())
