"""C29: superposition and scaling of translations; first order for matching."""
from vlib import env, gen, oracle


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'results for a sum / multiple / split of inputs compared with the sum / multiple of results'
    lin = [r for r in gen.ROUTES if r not in gen.SMEFT_MATCH]

    def go(r, C, sc, p):
        ok, o = run.guard(lambda: gen.apply(gen.make(w, rng, r, C, sc), r, p), gen.rname(r), lambda: dict(C=C, scale=sc, parameters=p))
        return o.dict if ok else None

    def strip(r, C):
        if r[1:] == ('Warsaw', 'Warsaw mass'):
            return {k: v for k, v in C.items() if not k.startswith('llphiphi')}
        return C

    def compare(r, kind, exp, got, tol, wit):
        bad = [k for k in set(exp) | set(got) if not abs(exp.get(k, 0) - got.get(k, 0)) <= tol(k)]
        run.observe(kind, key=(r, len(got), wit), nontrivial=bool(got))
        run.check(not bad, '%s: %s fails for %s' % (gen.rname(r), kind, [(k, exp.get(k, 0), got.get(k, 0)) for k in sorted(bad)[:3]]),
                  wit, kind=kind + gen.rname(r))

    def linear(r):
        sc, p = gen.scale(rng), gen.params(rng)
        lh = rng.choice(((None, None),) * 3 + ((-2, 2), (3, 6), (-30, -25), (-30, 0), (-60, 10)))
        A = strip(r, gen.consistent(r, gen.route_input(rng, r, rng.choice(gen.STYLES + ('perclass',) * 8), *lh)))
        B = strip(r, gen.consistent(r, gen.route_input(rng, r, rng.choice(gen.STYLES + ('perclass',) * 4), *lh)))
        q = rng.random()
        if q < .12:      # everything, or a part, cancels
            B = {k: -v for k, v in A.items() if q < .06 or rng.random() < .5}
        elif q < .24:    # the same operators, real and imaginary parts separately
            A, B = ({k: complex(v).real for k, v in A.items()}, {k: 1j * complex(v).imag for k, v in A.items()})
        S = {k: A.get(k, 0) + B.get(k, 0) for k in list(A) + [k for k in B if k not in A]}
        a, b, s = go(r, A, sc, p), go(r, B, sc, p), go(r, S, sc, p)
        if a is None or b is None or s is None:
            return
        e = [oracle.expected(r, X, sc, p) for X in (A, B)]
        tol = lambda k: 3 * sum(x[k][1] for x in e if k in x) + (1e-12 * (abs(a.get(k, 0)) + abs(b.get(k, 0))) if r in gen.RESTRICT else 0)
        compare(r, 'sum', {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}, s, tol, dict(A=A, B=B, scale=sc, parameters=p))
        f = rng.choice((-1., 2., -.5, 1e-6, 1e6, 0., rng.uniform(-3, 3)))
        m = go(r, {k: f * v for k, v in A.items()}, sc, p)
        if m is not None:
            compare(r, 'scale', {k: f * v for k, v in a.items()}, m,
                    lambda k: abs(f) * (e[0][k][1] if k in e[0] else 0) + 1e-12 * abs(f * a.get(k, 0)), dict(A=A, factor=f, scale=sc, parameters=p))
        # independent contributions: split one input at random
        if len(A) > 1:
            ks = list(A)
            rng.shuffle(ks)
            c = rng.randint(1, len(ks) - 1)
            classes = sorted({gen.classof(k) for k in ks})
            if len(classes) > 1 and rng.random() < .7:      # whole operator classes
                first = set(rng.sample(classes, rng.choice((1, 1, rng.randint(1, len(classes) - 1), len(classes) - 1))))
                ks.sort(key=lambda k: gen.classof(k) not in first)
                c = sum(gen.classof(k) in first for k in ks)
            x, y = go(r, {k: A[k] for k in ks[:c]}, sc, p), go(r, {k: A[k] for k in ks[c:]}, sc, p)
            if x is not None and y is not None:
                compare(r, 'split', {k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)}, a,
                        lambda k: 3 * (e[0][k][1] if k in e[0] else 0) + 1e-12 * abs(a.get(k, 0)), dict(first=ks[:c], A=A, scale=sc, parameters=p))

    def classes(r):
        """Each class with values of its own kind, against two halves of the classes."""
        sc, p = gen.scale(rng), gen.params(rng)
        A = strip(r, gen.consistent(r, gen.perclass(rng, gen.keys_of(*r[:2]), -9, -7, gen.classof)))
        cl = sorted({gen.classof(k) for k in A})
        if len(cl) < 2:
            return
        first = set(rng.sample(cl, len(cl) // 2))
        a, x, y = go(r, A, sc, p), go(r, {k: v for k, v in A.items() if gen.classof(k) in first}, sc, p), go(r, {k: v for k, v in A.items() if gen.classof(k) not in first}, sc, p)
        if a is None or x is None or y is None:
            return
        e = oracle.expected(r, A, sc, p)
        compare(r, 'split', {k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)}, a,
                lambda k: 3 * (e[k][1] if k in e else 0) + 1e-12 * abs(a.get(k, 0)), dict(first=sorted(first), A=A, scale=sc, parameters=p))

    def first_order(r):
        sc, p = gen.scale(rng), gen.params(rng)
        A = gen.route_input(rng, r, rng.choice(('dense', 'sparse', 'class', 'pair', 'few', 'perclass')), -10, -10)
        B = gen.route_input(rng, r, rng.choice(('dense', 'sparse', 'class', 'pair', 'few', 'perclass')), -10, -10)
        S = {k: A.get(k, 0) + B.get(k, 0) for k in list(A) + [k for k in B if k not in A]}
        a, b, s = go(r, A, sc, p), go(r, B, sc, p), go(r, S, sc, p)
        if a is None or b is None or s is None:
            return
        f = rng.choice((-1., 2., .5))
        m = go(r, {k: f * v for k, v in A.items()}, sc, p)
        # normalisation of the target coefficients (dipoles carry a factor v)
        dip = lambda k: 250 if len(k.split('_')[-1]) == 2 else 1
        if r[3] == 'JMS':
            nrm = dip
        else:
            mp = oracle._linmap(oracle.LINEAR['JMS', r[3]], float(sc), oracle._pk(oracle.ref.merged(p)))
            nn = {k: sum(c * dip(kk) for (kk, cc), c in x.a.items()) for k, x in mp.items()}
            nrm = lambda k: nn.get(k, 1)
        tol = lambda k: 1e-4 * 1e-10 * 20 * nrm(k)
        compare(r, 'sum', {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}, s, tol, dict(A=A, B=B, scale=sc, parameters=p))
        if m is not None:
            compare(r, 'scale', {k: f * v for k, v in a.items()}, m, tol, dict(A=A, factor=f, scale=sc, parameters=p))

    for i in range(run.n(3, 20)):
        for r in lin:
            linear(r)
    for i in range(run.n(24, 200)):
        for r in lin:
            classes(r)
    for i in range(run.n(6, 50)):
        for r in gen.SMEFT_MATCH:
            first_order(r)
    while run.more(70, 600):
        linear(rng.choice(lin))
        linear(rng.choice(lin))
        first_order(rng.choice(gen.SMEFT_MATCH))
    run.floor(sum=90, scale=90, split=30)
