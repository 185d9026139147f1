"""C07: values and numbers."""
import copy
import math
from fractions import Fraction
import numpy as np
from vlib import env, doc


def bits(x):
    return (float(x.real).hex(), float(x.imag).hex())


def eq(a, b):
    # equal as numbers to the last bit (signed zeros are the same number)
    a, b = complex(a), complex(b)
    return a.real == b.real and a.imag == b.imag


def run(run):
    w = env.load(register=False)
    rng = run.rng
    run.rule = 'number read from each notation compared bit by bit with the literal it denotes'

    def flt():
        r = rng.random()
        if r < .2:
            return float(doc.num(rng))
        if r < .3:
            return rng.choice((0., -0., 5e-324, -5e-324, 1.7976931348623157e308, 1 + 2**-52, 0.1, 1e22, 1e23, 123456789012345680.))
        return rng.choice((-1, 1)) * rng.random() * 10.**rng.randint(-320, 308)

    def lit(x):
        """a notation and the number it denotes"""
        r = rng.random()
        if r < .35:
            return x, x
        if r < .5:
            s = rng.choice((repr(x), '%.17g' % x, '%.25e' % x, ' ' + repr(x) + ' ', '+' + repr(abs(x)) if x > 0 else repr(x), '%.6e' % x, '%g' % x))
            return s, float(s)
        if r < .52:
            s = rng.choice(('inf', '-inf', 'Infinity', '-Infinity', '+inf', 'INF', '1E5', '.5', '5.', '-.5e-3', '+7', '007', '1e400', '-1e-400', '\t12\n'))
            return s, float(s)
        if r < .6:
            n = rng.choice((rng.randint(-10**15, 10**15), rng.choice((-1, 1)) * rng.choice((2**31, 2**32, 2**53, 2**63, 2**64, 10**20, 10**60)) + rng.choice((-1, 0, 1)),
                            rng.randint(-10**30, 10**30)))
            return rng.choice((n, str(n), float(n))), float(n)
        if r < .7:
            return np.float64(x), x
        if r < .75:
            b = rng.choice((True, False))
            return np.int64(b), float(b)
        return x, x

    for i in range(run.n(6000, 80000)):
        vals, exp = {}, {}
        for j in range(rng.randint(1, 6)):
            k = 'c%d' % j
            r = rng.random()
            if r < .4:
                v, e = lit(flt())
            elif r < .8:
                a, ea = lit(flt())
                b, eb = lit(flt())
                v = {'Re': a, 'Im': b} if rng.random() < .5 else {'Im': b, 'Re': a}
                e = complex(ea, eb)
            elif r < .9:
                a, ea = lit(flt())
                v, e = {'Re': a}, complex(ea, 0)
            else:
                a, ea = lit(flt())
                v, e = {'Im': a}, complex(0, ea)
            if rng.random() < .02:
                v, e = {}, 0
            if math.isinf(complex(e).imag):
                v, e = 'inf', math.inf      # (infinite imaginary parts are not supported)
            vals[k], exp[k] = v, e
        sc, esc = lit(abs(flt()) or 1.)
        while math.isinf(esc):
            sc, esc = lit(1.)
        given = copy.deepcopy(vals)
        how = rng.random()
        if how < .15:
            # as read from a file
            import json
            import yaml
            plain = _native(dict(eft='E', basis='B', scale=sc, values=vals))
            text = json.dumps(plain) if how < .1 else yaml.safe_dump(plain)
            ok, wc = run.guard(lambda: w.WC.load(text), 'WC.load', text)
            vals = wc.values if ok else None
            given = copy.deepcopy(vals)
            run.counts['loaded'] += 1
        else:
            ok, wc = run.guard(lambda: w.WC('E', 'B', sc, vals), 'WC', given)
        if not ok:
            continue
        if rng.random() < .3:
            run.guard(lambda: str(wc), 'str', given)
        if rng.random() < .2:
            run.guard(lambda: (wc.dump(), wc.dump(fmt='yaml')) if how < .15 else wc.dict, 'dump', given)
        ok, d = run.guard(lambda: wc.dict, 'dict', given)
        if not ok:
            continue
        run.observe('read', key=i, sample=dict(values=given, numbers=d))
        run.check(wc.scale == esc and isinstance(wc.scale, float), 'scale %r read as %r' % (sc, wc.scale), kind='scale')
        bad = [k for k in set(exp) | set(d) if k not in d or k not in exp or not eq(d[k], exp[k])]
        run.check(not bad, 'read %s' % [(given.get(k), d.get(k)) for k in bad[:3]], dict(values=given, read=d), kind='read')
        run.check(doc.same(_plain(vals), _plain(given)), 'reading changes the values', given, kind='mod')
        run.check(list(d) == list(given) or set(d) == set(given), 'names changed')
        # numbers that are complex or plain
        run.check(all(isinstance(x, (int, float, complex)) for x in d.values()), 'non-numeric entry', d)
        # second reading identical
        run.check(all(eq(wc.dict[k], d[k]) for k in d), 'second reading differs', given)
        # back to file values
        nums = {k: cast(rng, x) for k, x in d.items()}
        snap = dict(nums)
        ok, out = run.guard(lambda: w.WC.dict2values(nums), 'dict2values', snap)
        if not ok:
            continue
        run.observe('write', key=i)
        run.check(nums == snap and set(out) == set(nums), 'dict2values changes its input or the names', snap)
        for k, x in snap.items():
            v = out.get(k)
            x = complex(x)
            if x.imag != 0:
                good = isinstance(v, dict) and set(v) == {'Re', 'Im'} and eq(complex(float(v['Re']), float(v['Im'])), x) \
                    and all(type(y) in (float, int) for y in v.values())
            else:
                good = type(v) in (float, int) and eq(v, x.real)
            run.check(good, 'number %r written as %r' % (x, v), None, kind='write')
        ok, again = run.guard(lambda: w.WC('E', 'B', 1, out).dict, 'reading back', out)
        run.check(ok and all(eq(again[k], snap[k]) for k in snap), 'writing and reading back changes the numbers', dict(numbers=snap, values=out), kind='back')
    run.floor(read=3000, write=3000, loaded=200)


def _native(x):
    if isinstance(x, dict):
        return {k: _native(v) for k, v in x.items()}
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def _plain(v):
    return {k: ({a: repr(b) for a, b in x.items()} if isinstance(x, dict) else repr(x)) for k, x in v.items()}


def cast(rng, x):
    r = rng.random()
    if r > .9:
        # another precision that holds the number exactly
        for t in rng.sample((np.complex64, np.clongdouble, np.float32, np.float16, np.int64, np.int8, np.longdouble), 7):
            try:
                with np.errstate(all='ignore'):
                    y = t(complex(x) if issubclass(t, np.complexfloating) else complex(x).real)
                if complex(y) == complex(x):
                    return y
            except (OverflowError, ValueError, TypeError):
                pass
    elif r > .85:
        return np.complex64(complex(rng.choice((1, -2.5, 0)), rng.choice((1, 2**-20, -3.25))))
    if r < .3:
        return np.complex128(x)
    if r < .5:
        return complex(x)
    if r < .6 and complex(x).imag == 0:
        return np.float64(complex(x).real)
    if r < .7 and complex(x).imag == 0 and float(complex(x).real).is_integer() and abs(complex(x).real) < 1e15:
        return int(complex(x).real)
    return x
