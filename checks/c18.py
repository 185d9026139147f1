"""C18: flavio <-> Bern: definitions in both directions and round trips."""
from vlib import env, gen, drive, monitor

R = [(e, a, b) for e in ('WET', 'WET-4', 'WET-3') for a, b in (('flavio', 'Bern'), ('Bern', 'flavio'))]


def run(run):
    w = env.load()
    rng = run.rng
    # flavio -> Bern -> flavio is the identity
    for i in range(run.n(90, 1500)):
        e = ('WET', 'WET-4', 'WET-3')[i % 3]
        f, b = (e, 'flavio', 'Bern'), (e, 'Bern', 'flavio')
        sc, p = gen.scale(rng), gen.params(rng)
        C = gen.route_input(rng, f, gen.STYLES[(i // 3) % len(gen.STYLES)])
        ok, back = run.guard(lambda: gen.apply(gen.apply(gen.make(w, rng, f, C, sc), f, p), b, p),
                             'flavio -> Bern -> flavio in ' + e, C)
        if ok:
            compare(run, 'flavio -> Bern -> flavio in ' + e, C, back.dict, C)
        # Bern -> flavio -> Bern -> flavio reproduces the first flavio file
        C = gen.route_input(rng, b, gen.STYLES[(i // 3) % len(gen.STYLES)])
        ok, r = run.guard(lambda: chain(gen.make(w, rng, b, C, sc), (b, f, b), p), 'Bern -> flavio -> Bern -> flavio in ' + e, C)
        if ok:
            compare(run, 'Bern -> flavio -> Bern -> flavio in ' + e, r[0].dict, r[2].dict, C)
    run.floor(roundtrip=100)
    drive.standard(run, w, R, run.n(2, 8), run.n(120, 1500), 25, 400)


def chain(wc, routes, p):
    out = []
    for r in routes:
        wc = gen.apply(wc, r, p)
        out.append(wc)
    return out


def sector(k):
    """Coefficients that can mix: same quark pair and leptons."""
    return k.split('_')[-1] if '_' in k else k.lstrip('0123456789pgamnu')


def compare(run, what, A, B, C):
    cls = {}
    for k in set(A) | set(B):
        cls[sector(k)] = max(cls.get(sector(k), 0), abs(A.get(k, 0)), abs(B.get(k, 0)))
    bad = [k for k in set(A) | set(B) if abs(A.get(k, 0) - B.get(k, 0)) > 1e-9 * cls[sector(k)]]
    run.observe('roundtrip', key=(what, sorted(C)[:3], len(C)), nontrivial=bool(A))
    run.check(not bad, '%s changes %s' % (what, sorted(bad)[:6]),
              lambda: dict(coefficients=C, before={k: A.get(k, 0) for k in bad[:20]},
                           after={k: B.get(k, 0) for k in bad[:20]}), kind=what)
