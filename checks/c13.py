"""C13: symmetrization of SMEFT tensors from their independent entries."""
from collections import OrderedDict
import numpy as np
from vlib import env, gen, drive, monitor, oracle, ref, bases as B


def run(run):
    w = env.load()
    rng = run.rng
    from wcxf.util import smeftutil
    sym, addm = smeftutil.symmetrize, smeftutil.add_missing
    keys = gen.keys_of('SMEFT', 'Warsaw')
    names = list(B.SMEFT_2F) + list(B.SMEFT_4F)
    byname = {n: [k for k in keys if gen.classof(k) == n] for n in names}
    run.rule = 'every tensor entry after symmetrization compared with the orbit reconstruction from the independent entries'

    def place(C):
        T = {}
        for k, v in C.items():
            n, _, i = k.partition('_')
            if not i:
                T[k] = v
            else:
                T.setdefault(n, np.zeros((3,) * len(i), dtype=complex))[tuple(int(c) - 1 for c in i)] = v
        return T

    def junk(T, real=False):
        """Fill everything that is not an independent entry with random numbers."""
        ind = {}
        for n, a in T.items():
            if np.ndim(a) == 0:
                continue
            ok = set(tuple(int(c) - 1 for c in k.split('_')[1]) for k in byname[n])
            for i in np.ndindex(a.shape):
                if i not in ok:
                    a[i] = complex(rng.gauss(0, 9), 0 if real else rng.gauss(0, 9))
        return T

    def check(C, T, what):
        real = not any(np.iscomplexobj(v) and np.any(np.imag(v)) for v in T.values())
        lay = rng.random()
        if real and lay < .5:       # other number types
            T = {n: np.real(a).copy() if np.ndim(a) else a for n, a in T.items()}
            if what != 'junk in redundant entries' and all(np.all(np.abs(a) < 1e9) for a in T.values()) and all(np.all(np.asarray(a) == np.rint(np.real(a))) for a in T.values()):
                T = {n: np.rint(a).astype(int) if np.ndim(a) else a for n, a in T.items()}
        if lay < .25 or lay > .9:   # other memory layout
            T = {n: np.asfortranarray(a) if np.ndim(a) else a for n, a in T.items()}
        elif lay < .4:
            T = {n: np.repeat(a, 2, axis=-1)[..., ::2] if np.ndim(a) else a for n, a in T.items()}
        if rng.random() < .2:       # not for writing
            T = {n: np.array(a) if np.ndim(a) else a for n, a in T.items()}
            for a in T.values():
                if np.ndim(a):
                    a.setflags(write=False)
        if rng.random() < .2:
            T = OrderedDict(sorted(T.items(), key=lambda x: rng.random()))
        run.counts['layout real=%s %d' % (real, 4 * lay)] += 1
        before = {n: np.array(a) for n, a in T.items()}
        ok, S = run.guard(lambda: sym(T), 'symmetrize ' + what, C)
        if not ok:
            return
        bad = [n for n in before if n not in T or not np.array_equal(before[n], T[n])]
        run.check(not bad, '%s: symmetrize changes the tensors %s it is given' % (what, bad), C, kind='input')
        full = ref.smeft_full(C)
        run.check(set(S) == set(T), '%s: symmetrize returns other classes %s' % (what, set(S) ^ set(T)), C)
        for n in T:
            if n not in S:
                continue
            g, e = np.asarray(S[n], dtype=complex), np.asarray(full[n], dtype=complex)
            tol = 1e-12 * (np.max(np.abs(e)) if e.size else 0)
            run.observe('tensor', key=(what, n), nontrivial=bool(np.any(e)))
            run.counts['entries'] += g.size
            if g.shape != e.shape or not np.all(np.abs(g - e) <= tol):
                i = tuple(int(x) for x in np.argwhere(~(np.abs(g - e) <= tol))[0]) if g.shape == e.shape else None
                run.violate('%s: %s%s = %s, expected %s' % (what, n, i, g[i] if i is not None else g.shape, e[i] if i is not None else e.shape),
                            dict(coefficients=C), kind=what + n)
        return S

    for rnd in range(run.n(4, 40)):
        # each class alone; dense, sparse, each with clean and junk redundant entries
        for n in names + list(B.SMEFT_0F):
            sub = {k: keys[k] for k in byname.get(n, [n])}
            for st in ('dense', 'sparse', 'single', 'real', 'imag', 'ints', 'equal', 'cancel'):
                C = gen.coeffs(rng, sub, st, -1, 1)
                if not C:
                    continue
                if st != 'ints' and rng.random() < .25:     # another order of magnitude
                    f = 10.**rng.choice((-200, -60, -25, 8, 30, 150))
                    C = {k: v * f for k, v in C.items()}
                check(C, place(C), 'independent entries given')
                check(C, junk(place(C), st == 'real'), 'junk in redundant entries')
        C = gen.coeffs(rng, keys, rng.choice(('dense', 'mixed', 'sparse')), -1, 1)
        S = check(C, place(C), 'all classes')
        if S is not None:
            # consistent tensors are a fixed point
            ok, S2 = run.guard(lambda: sym(S), 'symmetrize twice', C)
            if ok:
                for n in S:
                    run.observe('fixpoint', key=n)
                    run.check(np.allclose(S[n], S2[n], rtol=1e-13, atol=0), 'symmetrize changes the consistent tensor %s' % n, lambda: C)
        # classes given as zero stay, as zero
        Z = gen.coeffs(rng, keys, rng.choice(('few', 'class', 'sparse')), -1, 1)
        T = place(Z)
        for n in rng.sample(names + list(B.SMEFT_0F), 8):
            if n not in T:
                T[n] = np.zeros((3,) * len(B.FIELDS[n]), dtype=complex) if n in B.FIELDS else rng.choice((0, 0., 0j))
        check(Z, T, 'with zero classes')
    # every single independent entry of every class
    for n in names:
        for k in byname[n]:
            for v in ((1.5, -2) if keys[k] else (complex(1, 2), complex(0, -1.), -3)):
                C = {k: v}
                check(C, place(C), 'single entry')
    for T in ({}, OrderedDict()):
        ok, S = run.guard(lambda: sym(T), 'symmetrize nothing', {})
        run.check(ok and not S, 'symmetrize makes %s out of nothing' % (S,), {}, kind='nothing')
    # missing classes count as zero
    for i in range(run.n(80, 500)):
        C = gen.coeffs(rng, keys, rng.choice(('single', 'class', 'pair', 'few', 'sparse')), -1, 1)
        how = i % 8
        if how in (1, 2):
            C = {k: rng.randint(-4, 4) if how == 1 else float(np.real(v)) for k, v in C.items()}
        elif how == 3:
            f = 10.**rng.choice((-200, -60, -25, 8, 30, 150))
            C = {k: v * f for k, v in C.items()}
        T = place(C)
        if how == 4:
            C, T = {}, {}
        elif how == 5:      # given, and zero
            for n in rng.sample(names, 5):
                T.setdefault(n, np.zeros((3,) * len(B.FIELDS[n]), dtype=rng.choice((complex, float, int))))
        elif how == 6:
            T = OrderedDict((n, np.asfortranarray(a) if np.ndim(a) else a) for n, a in T.items())
        if how in (1, 2):
            T = {n: a.real.astype(int) if how == 1 and np.ndim(a) else a.real if np.ndim(a) else a for n, a in T.items()}
        if i % 3 == 0:
            for a in T.values():
                if np.ndim(a):
                    a.setflags(write=False)
        before = {k: np.array(v) for k, v in T.items()}
        # as given, or already consistent
        if i % 2:
            ok, A = run.guard(lambda: addm(sym(T)), 'add_missing', C)
        else:
            full = ref.smeft_full(C)
            T = type(T)((n, np.asarray(full[n] if np.any(np.imag(a)) or np.any(np.imag(full[n])) else np.real(full[n])).astype(a.dtype if np.ndim(a) and np.iscomplexobj(a) else float) if np.ndim(a) else a) for n, a in T.items())
            if how == 6:
                T = OrderedDict((n, np.asfortranarray(a) if np.ndim(a) else a) for n, a in T.items())
            if i % 3 == 0:
                for a in T.values():
                    if np.ndim(a):
                        a.setflags(write=False)
            before = {k: np.array(v) for k, v in T.items()}
            ok, A = run.guard(lambda: addm(T), 'add_missing', C)
        if not ok:
            continue
        run.check(set(T) == set(before) and all(np.array_equal(before[k], T[k]) for k in T), 'filling in missing coefficients changes the tensors given', C, kind='input')
        run.observe('missing', key=sorted(T))
        full = ref.smeft_full(C)
        miss = [n for n in full if n not in A or np.shape(A[n]) != np.shape(full[n])
                or not np.allclose(np.asarray(A[n], dtype=complex), full[n], rtol=1e-12, atol=1e-14 * np.max(np.abs(full[n])))]
        run.check(not miss, 'after filling in missing coefficients %s are not the expected tensors' % miss[:5], C)
        # the result belongs to the caller
        for n in A:
            if isinstance(A[n], np.ndarray) and A[n].flags.writeable and n not in T:
                A[n][...] = 7.
    # as observed through the translators (the tensors are used, not just built)
    with monitor.Tap(w).subscribe(oracle.route_oracle(run, None, 'translated')):
        r = ('SMEFT', 'Warsaw', 'Warsaw up')
        for n in names:
            for st in ('dense', 'single'):
                C = gen.coeffs(rng, {k: keys[k] for k in byname[n]}, st, -6, -5)
                drive.call(run, w, rng, rng.choice((r, ('SMEFT', 'Warsaw up', 'Warsaw'))), C, 91., gen.params(rng, 'all'))
    run.floor(tensor=2000, fixpoint=40, missing=30, translated=50)
