"""C28: every result is valid in its target basis, finite, real where required."""
import math
from vlib import env, gen, drive, monitor


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'each result checked for membership in the target basis, validation, finiteness and reality'

    def sub(ev):
        if ev.route not in gen.ROUTES:
            return
        n = gen.rname(ev.route)
        wit = lambda: dict(coefficients=ev.C, scale=ev.scale, parameters=ev.params)
        if ev.error is not None:
            run.violate('%s raised %s: %s' % (n, type(ev.error).__name__, str(ev.error)[:120]), wit(), kind='r' + n)
            return
        tgt = (ev.route[0], ev.route[2]) if len(ev.route) == 3 else ev.route[2:]
        keys = gen.keys_of(*tgt)
        out = ev.result.dict
        run.observe('result', key=(n, len(ev.C), sorted(ev.C)[:2], ev.scale), nontrivial=bool(ev.C),
                    sample=dict(route=n, n_in=len(ev.C), n_out=len(out)))
        extra = [k for k in out if k not in keys]
        run.check(not extra, '%s: %s not in the target basis' % (n, extra[:5]), wit, kind='x' + n)
        ok, _ = run.guard(ev.result.validate, n + ': validation of the result', wit)
        bad = [k for k, v in out.items() if not (math.isfinite(v.real) and math.isfinite(v.imag))]
        run.check(not bad, '%s: not finite: %s' % (n, bad[:5]), wit, kind='f' + n)
        if not ev.C:
            run.counts['empty'] += 1
            run.check(not out, '%s: empty input gives %s' % (n, dict(list(out.items())[:4])), wit, kind='e' + n)
            return
        big = {}
        for k, v in ev.C.items():
            big[gen.classof(k)] = max(big.get(gen.classof(k), 0), abs(v))
        m = max(big.values())
        same = len(ev.route) == 3 and ev.route[0] == 'SMEFT'
        smeft_match = len(ev.route) == 4 and ev.route[0] == 'SMEFT'
        for k, v in out.items():
            if keys.get(k):
                tol = 1e-11 * (big.get(gen.classof(k), 0) if same else m) + (2e-18 if smeft_match else 0)
                run.counts['real'] += 1
                if not abs(v.imag) <= tol:
                    run.violate('%s: %s is real by hermiticity but came out as %r' % (n, k, v), wit(), kind='im' + n)

    with monitor.Tap(w).subscribe(sub):
        while True:
            for r in gen.ROUTES:
                slow = r in gen.SMEFT_MATCH
                drive.call(run, w, rng, r, {}, gen.scale(rng), gen.params(rng))
                keys = gen.keys_of(*r[:2])
                for i, st in enumerate(gen.STYLES):
                    lh = rng.choice(((-12, -7), (-9, -7), (-20, -7)) if slow else ((-9, -3), (-30, 10), (-100, -90), (60, 62)))
                    C = gen.consistent(r, gen.coeffs(rng, keys, st, *lh))
                    if st in ('dense', 'mixed'):
                        # drop one or two coefficients: nearly complete inputs
                        for k in rng.sample(list(C), min(len(C), rng.choice((0, 1, 2)))):
                            del C[k]
                    drive.call(run, w, rng, r, C, gen.scale(rng), gen.params(rng))
                names = rng.sample(list(keys), min(len(keys), 4 if slow else run.n(60, 100)))
                for k in names:
                    drive.call(run, w, rng, r, gen.consistent(r, gen.coeffs(rng, {k: keys[k]}, 'dense', -9, -8)), gen.scale(rng), gen.params(rng))
                # one coefficient class left out completely
                for i in range(2):
                    c = gen.classof(rng.choice(list(keys)))
                    C = gen.consistent(r, gen.coeffs(rng, {k: v for k, v in keys.items() if gen.classof(k) != c}, 'dense', -9, -8))
                    drive.call(run, w, rng, r, C, gen.scale(rng), gen.params(rng))
                # explicitly given zeros
                C = {k: 0. for k in rng.sample(list(keys), min(len(keys), 20))}
                try:
                    out = gen.apply(w.WC(r[0], r[1], gen.scale(rng), dict(C)), r)
                    run.check(not out.values, '%s: zero input gives %s' % (gen.rname(r), list(out.values)[:4]), C, kind='z' + gen.rname(r))
                except Exception:
                    pass
            if not run.more(60, 600):
                break
    run.floor(result=600, empty=30, real=500)
