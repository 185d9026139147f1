"""C14: tree-level SMEFT -> WET matching in the JMS basis."""
import itertools
import numpy as np
from vlib import env, gen, drive, monitor, oracle, ref

R = [('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS')]


def run(run):
    w = env.load()
    rng = run.rng
    with monitor.Tap(w).subscribe(oracle.route_oracle(run, set(R), 'class')):
        # every operator class alone and with the shift-inducing operators present
        keys = gen.keys_of('SMEFT', 'Warsaw')
        shift = [k for k in keys if k in ('phiWB', 'phiD', 'phil3_11', 'phil3_22', 'll_1221')]
        for c in sorted({gen.classof(k) for k in keys}):
            for i in range(run.n(1, 6)):
                for route in R:
                    sub = {k: v for k, v in keys.items() if gen.classof(k) == c}
                    if (i + R.index(route)) % 2:
                        sub.update({k: keys[k] for k in shift})
                    drive.call(run, w, rng, route, gen.coeffs(rng, sub, 'dense', -9, -6), gen.scale(rng),
                               gen.params(rng, rng.choice(['none', 'all'])))
        # large, realistic and tiny sizes
        for i in range(run.n(6, 60)):
            for route in R:
                lo = (-17, -16, -15, -12, -8, -7, -6.5)[(i + 3 * R.index(route)) % 7]
                drive.call(run, w, rng, route, gen.coeffs(rng, keys, rng.choice(('dense', 'dense', 'sparse')), lo, lo + .5), gen.scale(rng), gen.params(rng), vary=True)
        # coefficients that change the Fermi constant a lot
        for i in range(run.n(8, 60)):
            p = gen.params(rng, ('none', 'all', 'some')[i % 3])
            GF = ref.merged(p)['GF']
            # value of the Fermi constant without them, relative to the measured one
            x = (.35, .7, -1.5, 3., .45, 1.4, -.6, 8., .9, -4.)[i % 10] * rng.uniform(.95, 1.05)
            d = (1 - x) * GF * 4 / 2**.5
            C = gen.coeffs(rng, keys, ('few', 'sparse', 'single', 'class')[i % 4], -9, -6)
            for k in ('phil3_11', 'phil3_22', 'll_1221', 'phiWB'):
                C.pop(k, None)
            a = rng.random()
            C.update({'phil3_11': a * d / 2} if i % 3 else {'ll_1221': -a * d / 2}, phil3_22=(1 - a) * d / 2)
            C['uG_22'], C['eB_12'] = 1e-6, 1e-6 + 2e-6j
            drive.call(run, w, rng, R[i % 2], C, gen.scale(rng), p)
            run.observe('large shift', key=i)
    violating(run, w, rng)
    drive.standard(run, w, R, run.n(2, 6), run.n(40, 500), 60, 600)
    run.assumptions += ['rounding of the Standard Model subtraction: differences below 2e-18 GeV^-2 or 1e-11 of the largest input are not resolved']
    run.floor(**{'class': 80, 'bnv': 16, 'large shift': 4})


# published conditions (Jenkins, Manohar, Stoffer, table 20); * : contains left-handed down quarks
BNV = {'SuddLL': ('*', lambda T: -T['qqql'] - np.einsum('rpst', T['qqql'])),
       'SduuLL': ('*', lambda T: -T['qqql'] - np.einsum('rpst', T['qqql'])),
       'SduuLR': ('*', lambda T: -T['qque'] - np.einsum('rpst', T['qque'])),
       'SdudRL': ('*', lambda T: -T['duql']),
       'SduuRL': ('', lambda T: T['duql']),
       'SduuRR': ('', lambda T: T['duue'])}


def violating(run, w, rng):
    """Baryon number violation: a JMS basis that lists these coefficients too.
    Those with left-handed down quarks are looked at for a trivial CKM matrix."""
    old = w.Basis['WET', 'JMS']
    ind = [''.join(map(str, i)) for i in itertools.product((1, 2, 3), repeat=4)]
    sec = dict(old.sectors)
    sec['dB=dL=1'] = {'%s_%s' % (n, i): None for n in BNV for i in ind}
    w.Basis('WET', 'JMS', sec)
    keys = {k: r for k, r in gen.keys_of('SMEFT', 'Warsaw').items() if gen.classof(k) in ('qqql', 'qque', 'duql', 'duue')}
    try:
        for i in range(run.n(24, 200)):
            route = R[i % 2]
            C = gen.coeffs(rng, keys, gen.STYLES[i % len(gen.STYLES)], -12, -6)
            p = gen.params(rng, rng.choice(('none', 'some')))
            trivial = i % 4 >= 2
            if trivial:
                p = dict(p or {}, Vus=1e-9, Vcb=1e-9, Vub=1e-12)
            ok, out = run.guard(lambda: gen.apply(gen.make(w, rng, route, C, 160.), route, p), gen.rname(route), lambda: dict(C=C, parameters=p))
            if not ok:
                continue
            T = ref.smeft_full(C)
            if route[1] == 'Warsaw':
                V = ref.ckm(ref.merged(p))
                T = {n: ref.rotate(t, n, V.conj().T) if n in ref.B.FIELDS else t for n, t in T.items()}
            run.observe('bnv', key=(route, len(C), trivial), nontrivial=bool(C))
            for n, (left, f) in BNV.items():
                if left and not trivial:
                    continue
                E = f(T)
                for x in ind:
                    e = E[tuple(int(c) - 1 for c in x)]
                    g = out.dict.get(n + '_' + x, 0)
                    run.check(abs(g - e) <= 1e-7 * oracle.size(C), '%s: %s_%s = %s, expected %s' % (gen.rname(route), n, x, g, e),
                              lambda: dict(C=C, parameters=p), kind='bnv' + n)
    finally:
        w.Basis('WET', 'JMS', old.sectors)
