"""C12: Warsaw -> Warsaw mass."""
import numpy as np
from vlib import env, gen, drive, monitor

R = [('SMEFT', 'Warsaw', 'Warsaw mass')]
ROTATED = ('uphi', 'uG', 'uW', 'uB', 'llphiphi')


def run(run):
    w = env.load()
    rng = run.rng

    def untouched(ev):
        if ev.route != R[0] or ev.result is None:
            return
        out = ev.result.dict
        bad = [k for k, v in ev.C.items() if gen.classof(k) not in ROTATED and out.get(k, 0) != v]
        run.observe('identity', key=len(ev.C), nontrivial=bool(ev.C))
        run.check(not bad, 'Warsaw mass changes %s' % bad[:5], lambda: dict(coefficients=ev.C, out=out))
        new = [k for k in out if gen.classof(k) not in ROTATED and k not in ev.C]
        run.check(not new, 'Warsaw mass adds %s' % new[:5], lambda: dict(coefficients=ev.C, out=out))
        off = [k for k in out if k.startswith('llphiphi_') and (k[-1] != k[-2] or out[k].imag != 0 or out[k].real < 0)]
        run.check(not off, 'Weinberg matrix not non-negative diagonal: %s' % off, lambda: ev.C)
    with monitor.Tap(w).subscribe(untouched):
        drive.standard(run, w, R, run.n(6, 40), run.n(200, 2000), 12, 200)
        # Weinberg operator alone: structured matrices
        keys = {k: r for k, r in gen.keys_of('SMEFT', 'Warsaw').items() if k.startswith('llphiphi')}
        from vlib import oracle
        with monitor.Tap(w).subscribe(oracle.route_oracle(run, set(R), 'weinberg')):
            for i in range(run.n(120, 1500)):
                lo = rng.choice((-16, -9, -3))
                if i % 3:
                    C = gen.coeffs(rng, keys, rng.choice(('dense', 'real', 'imag', 'few', 'single', 'unit') + gen.RELATED), lo, lo + 1)
                else:       # hierarchical or degenerate masses, large mixing
                    U = np.linalg.qr(np.array([[complex(rng.gauss(0, 1), rng.choice((0, 1)) * rng.gauss(0, 1)) for _ in '123'] for _ in '123']))[0]
                    m = 10.**lo * np.array([10.**-rng.choice((0, 0, 1, 3, 6, 9, 11)) for _ in '123'])
                    M = U @ np.diag(m) @ U.T
                    C = {k: complex(M[int(k[-2]) - 1, int(k[-1]) - 1]) for k in keys}
                    run.observe('hierarchy', key=tuple(m))
                drive.call(run, w, rng, R[0], C, 91.1876, gen.params(rng))
    run.floor(identity=50, weinberg=50, hierarchy=20)
