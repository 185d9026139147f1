"""C31: named coefficients <-> arrays."""
import itertools
from collections import OrderedDict
import numpy as np
from vlib import env, gen, ref, bases as B


def run(run):
    w = env.load()
    rng = run.rng
    from wcxf.translators import smeft
    keys = gen.keys_of('SMEFT', 'Warsaw')
    names = list(B.SMEFT_2F) + list(B.SMEFT_4F)
    run.rule = 'every array entry compared with the coefficient of that name, and back'
    allk = dict(keys)
    for n in names:
        for ind in itertools.product((1, 2, 3), repeat=len(B.FIELDS[n])):
            allk.setdefault(B.label(n, ind), False)

    def layout(a):
        """The same array, stored differently."""
        r = rng.random()
        if r < .2:
            a = np.asfortranarray(a)
        elif r < .3:
            a = np.repeat(a, 2, axis=0)[::2]
        elif r < .4:
            a = np.flip(np.flip(a).copy())
        if r > .6 and not np.any(np.imag(a)):
            a = np.real(a)
            if rng.random() < .3 and np.array_equal(a, a.astype(int)):
                a = a.astype(int)
        if rng.random() < .3:
            a = a.copy() if a.base is not None else a
            a.setflags(write=False)
        run.counts['layout C=%s %s' % (a.flags.c_contiguous, a.dtype)] += 1
        return a

    def scalar(a):
        r = rng.random()
        if r < .2:
            a = np.array(a)
        elif r < .4:
            a = np.asarray(a)[()]
        elif r < .5 and not np.imag(a):
            a = np.float64(np.real(a))
        elif r < .6:
            a = complex(a)
        run.counts['scalar ' + type(a).__name__] += 1
        return a

    def number(v):
        """The same or another value, of another type."""
        r = rng.random()
        if r < .3:
            return v
        if r < .4:
            return rng.randint(-3, 3)
        if r < .5:
            return np.float64(np.real(v))
        if r < .6:
            return np.complex128(v)
        if r < .7:
            return rng.choice((0, 0., 0j, -0.))
        if r < .8:
            return float(np.real(v))
        return complex(v) * 10**rng.choice((-290, -100, -30, 30, 100))

    def mapping(C):
        return C if rng.random() < .6 else OrderedDict(sorted(C.items(), key=lambda x: rng.random()))

    for i in range(run.n(160, 2000)):
        C = gen.coeffs(rng, rng.choice((keys, allk)), gen.STYLES[i % len(gen.STYLES)], *rng.choice(((-9, -3), (-200, 200))))
        if i % 20 == 7:
            C = {}
        elif i % 20 == 13:
            C = {k: rng.choice((0, 0., 0j)) for k in C}
        elif i % 20 == 17:
            C = {k: rng.randint(-5, 5) for k in C}
        elif i % 3 == 0:
            C = {k: number(v) for k, v in C.items()}
        C = mapping(C)
        snap = dict(C)
        ok, T = run.guard(lambda: smeft.wcxf2arrays(C), 'wcxf2arrays', C)
        if not ok:
            continue
        run.check(C == snap, 'wcxf2arrays modifies its input', snap)
        run.observe('arrays', key=(i, len(C)), nontrivial=bool(C))
        run.check(set(T) == {gen.classof(k) for k in C}, 'wcxf2arrays: classes %s for names of %s' % (sorted(T)[:5], sorted(C)[:5]), C)
        for n, a in T.items():
            if n in B.SMEFT_0F:
                run.check(a == C[n], 'wcxf2arrays: %s' % n, C)
                continue
            e = np.zeros((3,) * len(B.FIELDS[n]), dtype=complex)
            for k, v in C.items():
                if gen.classof(k) == n:
                    e[tuple(int(c) - 1 for c in k.split('_')[1])] = v
            run.check(np.array_equal(np.asarray(a), e), 'wcxf2arrays: array %s does not hold the given coefficients' % n, C, kind=n)
        T = {n: layout(a) if n in B.FIELDS else scalar(a) for n, a in T.items()}
        T = mapping(T)
        ok, D = run.guard(lambda: smeft.arrays2wcxf(T), 'arrays2wcxf', C)
        if ok:
            run.observe('names', key=(i, len(C)), nontrivial=bool(C))
            bad = [k for k in set(C) | set(D) if C.get(k, 0) != D.get(k, 0)]
            run.check(not bad, 'arrays2wcxf(wcxf2arrays) changes %s' % bad[:5], C)
            full = sum(3**len(B.FIELDS[n]) if n in B.FIELDS else 1 for n in T)
            run.check(len(D) == full, 'arrays2wcxf lists %d of %d entries' % (len(D), full), C)
    for n in names:
        for st in ('dense', 'single', 'sparse', 'dense', 'single', 'none'):
            sub = {k: keys[k] for k in keys if gen.classof(k) == n}
            C = gen.coeffs(rng, sub, st, -1, 1) if st != 'none' else {}
            how = rng.choice(('plain', 'real', 'int', 'zero', 'numpy', 'tiny', 'huge'))
            if how in ('real', 'int', 'zero', 'numpy'):
                f = {'real': lambda v: float(np.real(v)), 'int': lambda v: rng.randint(-3, 3), 'zero': lambda v: 0,
                     'numpy': lambda v: np.complex128(v) if np.imag(v) else np.float64(np.real(v))}[how]
                C = {k: f(v) for k, v in C.items()}
            elif how != 'plain':
                C = {k: v * (1e-200 if how == 'tiny' else 1e150) for k, v in C.items()}
            if n == 'qqql' and how == 'int':
                C = {k: float(v) for k, v in C.items()}
            # alone, next to a few others, next to everything else
            C2 = dict(C)
            rest = rng.choice((None, 'single', 'sparse', 'sparse', 'dense'))
            if rest:
                C2.update(gen.coeffs(rng, {k: keys[k] for k in keys if gen.classof(k) != n}, rest, -1, 1))
            C2 = mapping(C2)
            ok, a = run.guard(lambda: smeft.smeft_toarray(n, C2), 'smeft_toarray', C2)
            if ok:
                e = ref.smeft_full(C)[n]
                run.observe('toarray', key=(n, st, how, rest))
                run.check(np.allclose(a, e, rtol=1e-12, atol=1e-14 * np.abs(e).max()), 'smeft_toarray(%s) is not the tensor of the given coefficients' % n, C, kind='t' + n)
                ok, d = run.guard(lambda: smeft.smeft_fromarray(n, layout(np.asarray(a))), 'smeft_fromarray', C)
                if ok:
                    exp = {B.label(n, [x + 1 for x in i]): e[i] for i in np.ndindex(e.shape)}
                    run.check(set(d) == set(exp) and all(abs(d[k] - exp[k]) <= 1e-12 * abs(exp[k]) + 1e-14 * np.abs(e).max() for k in exp),
                              'smeft_fromarray(%s) does not list all entries' % n, C, kind='f' + n)
    run.floor(arrays=100, names=100, toarray=200)
