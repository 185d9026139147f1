"""C30: general U(3)^5 flavour rotations."""
from collections import OrderedDict
import numpy as np
from vlib import env, gen, ref, bases as B


NEAR = (-1, -2, -3, -4, -5, -7, -9)


def unitary(rng, kind, e=None):
    if kind == 'one':
        return np.eye(3)
    if kind == 'diag':
        return np.diag([np.exp(1j * rng.uniform(-3, 3)) for _ in range(3)])
    if kind == 'near':      # close to the unit matrix
        e = e or 10.**rng.choice(NEAR)
        h = np.array([[complex(rng.gauss(0, e), rng.gauss(0, e)) for _ in range(3)] for _ in range(3)])
        u, s, v = np.linalg.svd(np.eye(3) + h - h.conj().T)
        return u @ v
    if kind == 'perm':
        p = [0, 1, 2]
        rng.shuffle(p)
        return np.eye(3)[p]
    m = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1) if kind == 'u3' else 0) for _ in range(3)] for _ in range(3)])
    return np.linalg.qr(m)[0]


def rot(T, name, U, size=False):
    """each index with the matrix of its own field: conj for barred fields"""
    for pos, (f, bar) in enumerate(B.FIELDS[name]):
        M = U[f].conj() if bar else U[f]
        T = np.moveaxis(np.tensordot(np.abs(M) if size else M, T, axes=(0, pos)), 0, pos)
    return T


def run(run):
    w = env.load()
    rng = run.rng
    from wcxf.util import smeftutil
    run.rule = 'every tensor entry after rotation compared with index-by-index contraction by field content'
    names = list(B.SMEFT_2F) + list(B.SMEFT_4F)
    F = 'qudle'

    def call(T, U):
        return run.guard(lambda: smeftutil.flavor_rotation(T, U['q'], U['u'], U['d'], U['l'], U['e']), 'flavor_rotation', sorted(T))

    def arr(n):
        return np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(3**len(B.FIELDS[n]))]).reshape((3,) * len(B.FIELDS[n]))

    for i in range(run.n(200, 1500)):
        kind = ('u3', 'near', 'o3', 'perm', 'diag', 'mixed', 'one')[i % 7]
        e = 10.**NEAR[i // 7 % len(NEAR)]        # all matrices equally close to the unit matrix
        U = {f: unitary(rng, rng.choice(('u3', 'one', 'perm', 'diag', 'near')) if kind == 'mixed' else kind, e) for f in F}
        if i % 6 == 5:       # one matrix object for several fields
            for f in F:
                if rng.random() < .7:
                    U[f] = U[rng.choice(F)]
        sel = names if i % 3 else rng.sample(names, rng.randint(1, 6))
        T = {n: arr(n) for n in sel}
        if i % 4 == 3:       # many orders of magnitude, some zeros
            for n in T:
                T[n] = T[n] * np.array([rng.choice((0, 1, 10.**rng.uniform(-25, 5))) for _ in range(T[n].size)]).reshape(T[n].shape)
        if i % 8 == 4:       # real numbers, other layouts
            T = {n: rng.choice((lambda a: a.real.copy(), lambda a: np.asfortranarray(a), lambda a: np.rint(3 * a.real).astype(int), lambda a: a))(a) for n, a in T.items()}
        if i % 2:
            T.update({k: rng.gauss(0, 1) for k in rng.sample(list(B.SMEFT_0F), rng.randint(0, 8))})
        if i % 8 == 2:       # one entry, or nothing
            for n in T:
                if n in B.FIELDS:
                    a = np.zeros(T[n].shape, dtype=rng.choice((complex, float)))
                    if rng.random() < .7:
                        a[tuple(rng.randrange(3) for _ in a.shape)] = rng.choice((1., -2.5))
                    T[n] = a
        elif i % 8 == 6:     # other orders of magnitude; imaginary
            f = rng.choice((1e-200, 1e-50, 1e-25, 1e9, 1e40, 1e100))
            T = {n: (1j * a.real if rng.random() < .3 else a) * f if n in B.FIELDS else a for n, a in T.items()}
        if i % 50 == 9:
            T = {}
        if i % 5 == 3:
            T = OrderedDict(sorted(T.items(), key=lambda x: rng.random()))
            for a in list(T.values()) + list(U.values()):
                if np.ndim(a):
                    a.setflags(write=False)
        before = {k: np.array(v) for k, v in T.items()}
        Ubefore = {f: U[f].copy() for f in F}
        ok, R = call(T, U)
        if not ok:
            continue
        run.check(all(np.array_equal(Ubefore[f], U[f]) for f in F), 'flavor_rotation modifies the matrices')
        run.check(set(R) == set(T), 'flavor_rotation returns other classes: %s' % sorted(set(R) ^ set(T)))
        run.check(all(np.array_equal(before[k], T[k]) for k in T), 'flavor_rotation modifies its input')
        for n in T:
            if n not in R:
                continue
            e = rot(T[n], n, U) if n in B.FIELDS else T[n]
            run.observe('tensor', key=(n, kind, i))
            # every entry relative to the size of the terms it is made of
            m = rot(np.abs(T[n]), n, U, True) if n in B.FIELDS else np.abs(e)
            d = np.abs(np.asarray(R[n]) - e) if np.shape(R[n]) == np.shape(e) else np.inf
            run.check(np.all(d <= 1e-12 * m), 'flavor_rotation of %s: differs by %.3g (%s matrices)' % (n, np.max(d), kind),
                      dict(cls=n, kind=kind), kind=n)
        # group property and inverse
        if i % 4 == 0:
            W = {f: unitary(rng, 'u3') for f in F}
            ok1, A = call(R, W)
            ok2, Bq = call(T, {f: U[f] @ W[f] for f in F})
            ok3, I = call(R, {f: U[f].conj().T for f in F})
            for n in T:
                run.observe('group', key=(n, i))
                if ok1 and ok2:
                    run.check(np.allclose(A[n], Bq[n], rtol=0, atol=1e-10 * np.max(np.abs(T[n]))), 'two rotations of %s are not one combined rotation' % n, kind='g' + n)
                if ok3:
                    run.check(np.allclose(I[n], T[n], rtol=0, atol=1e-10 * np.max(np.abs(T[n]))), 'rotating %s back does not restore it' % n, kind='i' + n)
        # rotation commutes with the symmetry relations
        if i % 5 == 0:
            C = gen.coeffs(rng, gen.keys_of('SMEFT', 'Warsaw'), 'dense', -1, 1)
            full = {n: v for n, v in ref.smeft_full(C).items() if n in B.FIELDS}
            ok, R = call(full, U)
            if ok:
                ok, S = run.guard(lambda: smeftutil.symmetrize(R), 'symmetrize', None)
                for n in full:
                    if ok:
                        run.observe('commute', key=(n, i))
                        run.check(np.allclose(S[n], R[n], atol=1e-9), 'rotated %s violates its index symmetries' % n, kind='s' + n)
    run.floor(tensor=1000, group=300, commute=200)
