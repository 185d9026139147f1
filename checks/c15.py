"""C15: different routes to the same basis agree."""
from vlib import env, gen, monitor, oracle, ref


def rowtol(src, dst, C, sc, p, noise=0.):
    """tolerance per target coefficient from the reference map's absolute sums"""
    m = oracle._linmap(oracle.LINEAR[src, dst], float(sc), oracle._pk(ref.merged(p)))
    t = {}
    for k, f in m.items():
        v, a = f.eval(C)
        t[k] = 1e-9 * a + noise * sum(f.a.values())
    return t


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'results along two routes compared coefficient by coefficient'

    def two(name, C, sc, p, A, B, tol, keys=None):
        ok1, a = run.guard(A, name + ' (direct)', lambda: dict(C=C, scale=sc, parameters=p))
        ok2, b = run.guard(B, name + ' (two steps)', lambda: dict(C=C, scale=sc, parameters=p))
        if not (ok1 and ok2):
            return
        a, b = a.dict, b.dict
        ks = set(a) | set(b)
        if keys is not None:
            ks &= set(keys)
        bad = [k for k in ks if not abs(a.get(k, 0) - b.get(k, 0)) <= 1e-13 * abs(b.get(k, 0))]
        if bad:      # the tolerance is only worked out where it is needed
            t = tol()
            bad = [k for k in bad if not abs(a.get(k, 0) - b.get(k, 0)) <= (t if isinstance(t, float) else t.get(k, 0))]
        run.observe(name, key=(len(C), sc, sorted(C)[:2]), nontrivial=bool(ks))
        run.counts['coefficients'] += len(ks)
        run.check(not bad, '%s: routes differ in %s' % (name, [(k, a.get(k, 0), b.get(k, 0)) for k in sorted(bad)[:3]]),
                  lambda: dict(C=C, scale=sc, parameters=p, differing=bad[:20]), kind=name)

    seq = [0]

    def smeft():
        i = seq[0]
        seq[0] += 1
        lh = rng.choice(((-12, -6), (-12, -6), (-16, -13)))
        C = gen.route_input(rng, ('SMEFT', 'Warsaw'), gen.STYLES[i % len(gen.STYLES)], *lh)
        if i % 4 == 3:
            C = next(gen.small(rng, gen.keys_of('SMEFT', 'Warsaw'), 1, (lh,)))
        if i % 4 == 1:      # dipoles alone or with little else: their normalisation is what depends on the scale
            keys = gen.keys_of('SMEFT', 'Warsaw')
            cl = rng.choice((('dB',), ('dW',), ('dG',), ('uG',), ('uB', 'uW'), ('dB', 'dW', 'dG'), ('eB', 'eW')))
            C = gen.coeffs(rng, {k: v for k, v in keys.items() if gen.classof(k) in cl}, rng.choice(('dense', 'few', 'mixed')), -12, -6)
        sc, p = gen.scale(rng), gen.params(rng)
        if i % 3 == 1:
            sc = rng.uniform(1.5, 4.2)
        wc = lambda: w.WC('SMEFT', 'Warsaw', sc, gen.values(rng, C))
        n = 2e-18 + 1e-11 * oracle.size(C)
        ok, j = run.guard(lambda: wc().match('WET', 'JMS', p), 'match to JMS', C)
        if not ok:
            return
        if i % 2 == 0:
            two('Warsaw-JMS', C, sc, p, lambda: j, lambda: wc().translate('Warsaw up', p).match('WET', 'JMS', p), lambda: n)
        for b in rng.sample(('flavio', 'EOS', 'Bern'), 2):
            two('Warsaw-' + b, C, sc, p, lambda: wc().match('WET', b, p), lambda: j.translate(b, p),
                lambda: rowtol('JMS', b, j.dict, sc, p, n))

    def wet():
        sc, p = gen.scale(rng), gen.params(rng)
        st = rng.choice(gen.STYLES)
        e = rng.choice(('WET', 'WET-4', 'WET-3'))
        C = gen.coeffs(rng, gen.keys_of(e, 'JMS'), st, *rng.choice(((-9, -3), (-9, -3), (-30, -20), (-1, 4))))
        wc = lambda: w.WC(e, 'JMS', sc, gen.values(rng, C))

        def tol():
            t1, t2 = rowtol('JMS', 'flavio', C, sc, p), rowtol('JMS', 'Bern', C, sc, p)
            mb = oracle._linmap('bern_to_flavio', float(sc), oracle._pk(ref.merged(p)))
            t = {k: t1.get(k, 0) + sum(a * t2.get(kk, 0) for (kk, cc), a in f.a.items()) for k, f in mb.items()}
            for k in t1:
                t.setdefault(k, t1[k])
            return t
        two('JMS-flavio', C, sc, p, lambda: wc().translate('flavio', p),
            lambda: wc().translate('Bern', p).translate('flavio', p), tol)
        C = gen.consistent(('WET', 'FlavorKit'), gen.coeffs(rng, gen.keys_of('WET', 'FlavorKit'), st))
        fk = lambda: w.WC('WET', 'FlavorKit', sc, gen.values(rng, C))
        ok, j = run.guard(lambda: fk().translate('JMS', p), 'FlavorKit to JMS', C)
        if ok:
            two('FlavorKit-flavio', C, sc, p, lambda: fk().translate('flavio', p), lambda: j.translate('flavio', p),
                lambda: rowtol('JMS', 'flavio', j.dict, sc, p))

    def fewer():
        sc, p = gen.scale(rng), gen.params(rng)
        st = rng.choice(gen.STYLES)
        hi, lo = rng.choice((('WET', 'WET-4'), ('WET-4', 'WET-3')))
        a, b = rng.choice((('JMS', 'flavio'), ('JMS', 'Bern'), ('Bern', 'flavio'), ('flavio', 'Bern')))
        C = gen.coeffs(rng, gen.keys_of(hi, a), st, *rng.choice(((-9, -3), (-9, -3), (-30, -20), (-1, 4))))
        wc = lambda: w.WC(hi, a, sc, gen.values(rng, C))
        two('fewer-%s-%s' % (a, b), C, sc, p, lambda: wc().translate(b, p).match(lo, b, p),
            lambda: wc().match(lo, a, p).translate(b, p), lambda: rowtol(a, b, C, sc, p), gen.keys_of(lo, b))

    n = run.n(24, 250)
    for i in range(n):
        smeft()
    for i in range(4 * n):
        wet()
        fewer()
        fewer()
    while run.more(45, 500):
        smeft()
        for i in range(4):
            wet()
            fewer()
    run.floor(**{'Warsaw-JMS': 20, 'Warsaw-flavio': 3, 'Warsaw-Bern': 3, 'Warsaw-EOS': 2, 'JMS-flavio': 60,
                 'FlavorKit-flavio': 60, 'fewer-JMS-flavio': 20, 'fewer-JMS-Bern': 20,
                 'fewer-Bern-flavio': 20, 'fewer-flavio-Bern': 20})
