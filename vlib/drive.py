"""Workload drivers for the built-in routes; oracles sit on the tap."""
from . import gen, monitor, oracle


def call(run, w, rng, route, C, sc, p, noarg=False, vary=False):
    """One monitored call; errors are reported by the subscribed oracle."""
    if vary and route[0] == 'SMEFT' and rng.random() < .15:
        C = gen.noisy(rng, C, gen.keys_of(*route[:2]))
        run.counts['noisy real parts'] += 1
    if vary and route in gen.ZEROCKM and rng.random() < .08:
        p = dict(p or {})
        for n in rng.sample(('Vub', 'Vcb'), rng.choice((1, 1, 2))):
            p[n] = rng.choice((0., 0, 0.))
        noarg = False
        run.counts['vanishing CKM parameters'] += 1
    wc = gen.make(w, rng, route, C, sc)
    try:
        return gen.apply(wc, route, p, noarg=noarg)
    except Exception:
        return None


def batch(run, w, rng, routes, rounds, lohi=((-9, -3), (-2, 2), (-20, -10), (0, 6), (-40, 2), (-16, -1)), everykey=0):
    """All styles, all parameter modes, every class, random singles."""
    slow = {r for r in routes if len(r) == 4 and r[0] == 'SMEFT'}
    for route in routes:
        keys = gen.keys_of(*route[:2])
        ranges = [None] if route in slow else lohi
        for i in range(rounds):
            for j, st in enumerate(gen.STYLES):
                lh = ranges[(i + j) % len(ranges)] or (-12, -6)
                mode = ['none', 'all', 'some', 'empty', 'single', 'defaults'][(i + j) % 6]
                C = gen.coeffs(rng, keys, st, *lh)
                call(run, w, rng, route, C, gen.scale(rng), gen.params(rng, mode), vary=True)
        # every operator class alone
        classes = sorted({gen.classof(k) for k in keys})
        if route not in slow and len(classes) <= 120:
            sc, p = gen.scale(rng), gen.params(rng, rng.choice(['none', 'all']))
            for c in classes:
                sub = {k: v for k, v in keys.items() if gen.classof(k) == c}
                call(run, w, rng, route, gen.coeffs(rng, sub, 'dense'), sc, p, vary=True)
        # single coefficients
        names = list(keys)
        rng.shuffle(names)
        sc, p = gen.scale(rng), gen.params(rng, rng.choice(['none', 'some']))
        for k in names[:everykey]:
            call(run, w, rng, route, gen.coeffs(rng, {k: keys[k]}, 'dense'), sc, p, vary=True)
        # each parameter overridden alone, dense input
        for name in sorted(gen.RANGES):
            C = gen.coeffs(rng, keys, 'dense', *(ranges[0] or (-12, -6)))
            call(run, w, rng, route, C, gen.scale(rng), {name: rng.uniform(*gen.RANGES[name])}, vary=True)
        # no parameters argument at all, empty input
        call(run, w, rng, route, gen.coeffs(rng, keys, 'dense', *(ranges[0] or (-12, -6))), 160., None, noarg=True)
        call(run, w, rng, route, {}, gen.scale(rng), None, vary=True)


def shared(run, w, rng, route, n):
    """Inputs aimed at single output coefficients of the linear routes: subsets
    of the inputs that enter it, equal or opposite to each other, or such that
    the output cancels exactly."""
    form = oracle.LINEAR.get(tuple(route[1:])) if len(route) == 3 else None
    if form is None:
        return
    keys = gen.keys_of(*route[:2])
    for j in range(n):
        if j % 40 == 0:
            sc, p = float(gen.scale(rng)), gen.params(rng, rng.choice(['none', 'all', 'some']))
            m = oracle._linmap(form, sc, oracle._pk(oracle.ref.merged(p)))
            outs = [(k, sorted({kk for kk, cc in f.t if kk in keys})) for k, f in m.items()]
            outs = [o for o in outs if o[1]]
            rng.shuffle(outs)
            # outputs of the same form: equal values for all or some of them
            forms = {}
            for k, ins in outs:
                forms.setdefault(tuple(sorted((complex(c).real, complex(c).imag, cc) for (kk, cc), c in m[k].t.items())), []).append(k)
            forms = [g for g in forms.values() if len(g) > 1]
            for g in rng.sample(forms, min(len(forms), 2)):
                g = rng.sample(g, rng.choice((2, len(g), len(g))))
                x = 10.**rng.choice((-9, -4, 0))
                vals = [x * complex(rng.choice((1., -1., rng.gauss(0, 1))), rng.choice((0., 0., 1., rng.gauss(0, 1)))) for i in range(8)]
                C = {}
                for k in g:
                    for i, ((kk, cc), c) in enumerate(sorted(m[k].t.items(), key=lambda t: (complex(t[1]).real, complex(t[1]).imag, t[0][1]))):
                        if kk in keys:
                            v = vals[i % 8].conjugate() if cc else vals[i % 8]
                            C.setdefault(kk, v.real if keys[kk] else v)
                run.counts['equal outputs'] += 1
                call(run, w, rng, route, {i: v for i, v in C.items() if v}, sc, p)
        k, ins = outs[j % len(outs)]
        f = m[k]
        ins = rng.sample(ins, rng.randint(1, min(len(ins), 4)))
        x = 10.**rng.choice((-9, -4, 0)) * complex(rng.choice((1., rng.gauss(0, 1))), rng.choice((0., 1., rng.gauss(0, 1))))
        C = {}
        for i in ins:
            v = rng.choice((x, -x, x.conjugate(), -x.conjugate()))
            C[i] = v.real if keys[i] else v
        if len(ins) > 1 and rng.random() < .4:      # choose the last one such that the output vanishes
            last = ins[-1]
            v, s = f.eval({i: C[i] for i in ins[:-1]})
            c, cc = f.t.get((last, False), 0), f.t.get((last, True), 0)
            if v and c and not cc:
                C[last] = -v / c
            elif v and cc and not c:
                C[last] = (-v / cc).conjugate()
            if keys[last]:
                C[last] = C[last].real
        C = {i: v for i, v in C.items() if v}
        run.counts['related inputs'] += 1
        call(run, w, rng, route, C, sc, p)


def small(run, w, rng, route, n):
    """Small files, evenly over the basis."""
    slow = route in gen.SMEFT_MATCH
    files = gen.small(rng, gen.keys_of(*route[:2]), n // 8 if slow else n, *[((-12, -6), (-12, -6), (-9, -7), (-17, -15))] * slow)
    for i, C in enumerate(files):
        C = gen.consistent(route, C)
        if i % 25 == 0:
            sc, p = gen.scale(rng), gen.params(rng, rng.choice(['none', 'all', 'some', 'single']))
        run.counts['small files'] += 1
        call(run, w, rng, route, C, sc, p, vary=True)


def standard(run, w, routes, rounds, everykey, extra_s, thorough_s):
    """Route check: batch plus extra rounds while the budget lasts."""
    run.rule = 'each result coefficient of a call compared with the reference model of the route'
    rng = run.rng
    with monitor.Tap(w).subscribe(oracle.route_oracle(run, set(routes))):
        batch(run, w, rng, routes, rounds, everykey=everykey)
        for r in routes:
            shared(run, w, rng, r, run.n(500, 4000) // len(routes))
            small(run, w, rng, r, run.n(2400, 12000) // len(routes))
        while run.more(extra_s, thorough_s):
            for r in routes:
                shared(run, w, rng, r, 60)
            batch(run, w, rng, routes, 1, everykey=everykey)
    run.floor(call=20 * len(routes))
