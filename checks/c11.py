"""C11: Warsaw <-> Warsaw up rotations and their round trip."""
from vlib import env, gen, drive, monitor, oracle

R = [('SMEFT', 'Warsaw', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Warsaw')]


def run(run):
    w = env.load()
    rng = run.rng
    roundtrips(run, w, rng, run.n(25, 200))
    drive.standard(run, w, R, run.n(2, 6), run.n(60, 600), 25, 400)
    run.assumptions += ['CKM matrix of the parameters as computed by the ckmutil dependency',
                        'basis definitions reconstructed from the published basis files']


def roundtrips(run, w, rng, n):
    for i in range(n):
        a, b = R[i % 2], R[1 - i % 2]
        C = gen.route_input(rng, a, gen.STYLES[i % len(gen.STYLES)])
        sc, p = gen.scale(rng), gen.params(rng)
        ok, back = run.guard(lambda: gen.apply(gen.apply(gen.make(w, rng, a, C, sc), a, p), b, p),
                             'round trip of ' + gen.rname(a), C)
        if not ok:
            continue
        big = oracle.size(C)
        # rotations mix entries of one class only: tolerance per class
        cls = {}
        for k, v in C.items():
            cls[gen.classof(k)] = max(cls.get(gen.classof(k), 0), abs(v))
        bad = [k for k in set(C) | set(back.dict)
               if abs(C.get(k, 0) - back.dict.get(k, 0)) > 1e-10 * cls.get(gen.classof(k), 0)]
        run.observe('roundtrip', key=(i, len(C)), nontrivial=bool(C))
        run.check(not bad, 'Warsaw/Warsaw up round trip changes %s' % sorted(bad)[:6],
                  lambda: dict(coefficients=C, back=back.dict, parameters=p), kind='roundtrip')
    run.floor(roundtrip=n)
