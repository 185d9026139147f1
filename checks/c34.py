"""C34: rules used directly, on plain dictionaries."""
import collections
import copy
import numpy as np
from vlib import env, gen, doc

WETF = {('JMS', 'flavio'): 'JMS_to_flavio', ('Bern', 'flavio'): 'Bern_to_flavio', ('flavio', 'Bern'): 'flavio_to_Bern',
        ('JMS', 'Bern'): 'JMS_to_Bern', ('JMS', 'EOS'): 'JMS_to_EOS', ('JMS', 'formflavor'): 'JMS_to_FormFlavor',
        ('FlavorKit', 'JMS'): 'FlavorKit_to_JMS', ('JMS', 'FlavorKit'): 'JMS_to_FlavorKit'}
SMEFTF = {('Warsaw', 'Warsaw mass'): 'warsaw_to_warsawmass', ('Warsaw', 'Warsaw up'): 'warsaw_to_warsaw_up', ('Warsaw up', 'Warsaw'): 'warsaw_up_to_warsaw'}
TOP = {('WET', 'FlavorKit', 'flavio'): 'FlavorKit_to_flavio'}
MATCHF = {('SMEFT', 'Warsaw up', 'WET', 'JMS'): 'warsaw_up_to_jms', ('SMEFT', 'Warsaw', 'WET', 'JMS'): 'warsaw_to_jms',
          ('SMEFT', 'Warsaw', 'WET', 'flavio'): 'warsaw_to_flavio', ('SMEFT', 'Warsaw', 'WET', 'EOS'): 'warsaw_to_eos',
          ('SMEFT', 'Warsaw', 'WET', 'Bern'): 'warsaw_to_bern'}


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'results of every way to apply one rule to the same numbers compared with each other'
    for i in range(run.n(12, 120)):
        for route in gen.ROUTES:
            if route in gen.SMEFT_MATCH and i % 3:
                continue
            ways(run, w, rng, route)
    user(run, w, rng, run.n(300, 3000))
    run.floor(object=150, function=150, decorated=100)


def numbers(rng, C):
    """The same numbers in other types, as mapping of some type."""
    t = rng.choice(('python', 'python', 'numpy', 'mixed', 'complex'))
    D = collections.OrderedDict() if rng.random() < .3 else {}
    for k, v in C.items():
        z = isinstance(v, complex)
        if t == 'numpy' or t == 'mixed' and rng.random() < .5:
            v = np.complex128(v) if z else np.float64(v)
        elif t == 'complex':
            v = complex(v)
        elif not z and float(v).is_integer() and abs(v) < 2**50 and rng.random() < .5:
            v = int(v)
        D[k] = v
    return D


def library(w, route):
    """Functions of the package that implement this rule: (name, needs scale, function)."""
    T, M = w.translators, w.matchers
    out = []

    def add(mod, name, sc):
        f = getattr(mod, name, None) if mod is not None else None
        if callable(f):
            out.append(('%s.%s' % (getattr(mod, '__name__', '?'), name), sc, f))
    if len(route) == 3:
        k = route[1:]
        if k in WETF:
            add(getattr(T, 'wet', None), WETF[k], True)
            add(T, WETF[k] + {'WET-4': '_wet4', 'WET-3': '_wet3'}.get(route[0], ''), True)
        if k in SMEFTF:
            add(getattr(T, 'smeft', None), SMEFTF[k], False)
            add(T, SMEFTF[k], True)
        if route in TOP:
            add(T, TOP[route], True)
    elif route in MATCHF:
        add(M, MATCHF[route], True)
        if route[1] == 'Warsaw up':
            add(getattr(M, 'smeft', None), 'match_all', False)
    else:
        b = route[1].lower()
        e = [x.lower().replace('-', '') for x in (route[0], route[2])]
        add(M, '%s_%s_%s' % (e[0], e[1], b), True)
    return out


def differ(a, b):
    """Names for which the two results are not the same numbers."""
    big = max([abs(v) for v in b.values()] + [0])
    return sorted(k for k in set(a) | set(b)
                  if not abs(a.get(k, 0) - b.get(k, 0)) <= 1e-9 * abs(b.get(k, 0)) + 1e-14 * big)


def ways(run, w, rng, route):
    style = rng.choice(gen.STYLES)
    C = gen.consistent(route, gen.route_input(rng, route, style))
    sc, p = gen.scale(rng), gen.params(rng)
    sc = rng.choice((sc, float(sc), np.float64(sc)))
    wc = gen.make(w, rng, route, C, sc)
    name = gen.rname(route)
    wit = lambda: dict(route=route, coefficients=C, scale=float(sc), parameters=p)
    ok, r = run.guard(lambda: gen.apply(wc, route, p), name, wit)
    if not ok:
        return
    want = r.dict
    reg = w.Translator if len(route) == 3 else w.Matcher
    ok, rule = run.guard(lambda: rng.choice((lambda: reg[route], lambda: reg.get_instance(route)))(), 'looking up ' + name, wit)
    if not ok:
        return
    # 1. the rule applied to the file object
    meth = rule.translate if len(route) == 3 else rule.match
    forms = [lambda: meth(wc, p), lambda: meth(wc, parameters=p)] + [lambda: meth(wc)] * (p is None)
    ok, o = run.guard(rng.choice(forms), 'applying the rule ' + name, wit)
    if ok:
        run.observe('object', key=(route, len(C), sc))
        lab = route[-1], route[-2] if len(route) == 4 else route[0], float(sc)
        run.check((o.basis, o.eft, float(o.scale)) == lab, 'the rule %s applied to a file gives the labels %s' % (name, (o.basis, o.eft, o.scale)), wit, kind='labels')
        bad = differ(o.dict, want)
        run.check(not bad, 'the rule %s applied to a file gives %s = %s, translating the file %s' % (
            name, bad[:1], [o.dict.get(k) for k in bad[:1]], [want.get(k) for k in bad[:1]]), wit, kind='object')
    # 2. its function
    D = numbers(rng, C)
    for k in rng.sample(list(gen.keys_of(*route[:2])), rng.choice((0, 0, 1, 3))):      # zeros change nothing
        D.setdefault(k, rng.choice((0, 0., 0j, np.float64(0))))
    snap, psnap = copy.deepcopy(D), copy.deepcopy(p)
    funcs = [('function of ' + name, True, rule.function)] + library(w, route)
    for n, needs, f in funcs:
        a = (D, sc) if needs else (D,)
        forms = [lambda: f(*(a + (p,)))]
        if n.split('.')[0] == 'wcxf' and ('.wet.' in n or '.smeft.' in n):
            forms.append(lambda: f(*a, parameters=p))
            if p is None:
                forms.append(lambda: f(*a))
        ok, o = run.guard(rng.choice(forms), n + ' called directly', wit)
        if not ok:
            continue
        run.observe('function' if f is rule.function else 'library', key=(n, len(C), sc))
        bad = differ({k: complex(v) for k, v in o.items()}, want)
        run.check(not bad, '%s called directly gives %s = %s, translating a file %s' % (
            n, bad[:1], [o.get(k) for k in bad[:1]], [want.get(k) for k in bad[:1]]), wit, kind='direct ' + n)
        run.check(doc.same(dict(D), dict(snap)) and p == psnap, n + ' changes its arguments', wit, kind='args ' + n)


def user(run, w, rng, n):
    """Decorated functions stay usable and are what the registry holds."""
    for i in range(n):
        m = rng.random() < .5
        key = tuple(rng.choice(('E', 'F', 'a', 'b', 'c')) + rng.choice(('', '-x', ' y')) for _ in range(4 if m else 3))
        fac = rng.choice((2., -1., 1j, 1e-30, 3 + 4j))

        def f(C, scale, parameters=None, extra=1):
            """doc of f"""
            d = {'r ' + k: fac * extra * v * (parameters or {}).get('x', 1) for k, v in C.items()}
            if own:
                d['own'] = 1. / scale
            return d
        own = rng.random() < .5
        orig = f
        orig.tag = i
        if rng.random() < .5:
            g = (w.matcher if m else w.translator)(*key)(f)
        else:
            names = ('from_eft', 'from_basis', 'to_eft', 'to_basis') if m else ('eft', 'from_basis', 'to_basis')
            g = (w.matcher if m else w.translator)(**dict(zip(names, key)))(f)
        C = {'k%d' % j: complex(rng.gauss(0, 1), rng.choice((0, rng.gauss(0, 1)))) for j in range(rng.randint(0, 4))}
        p = rng.choice((None, {}, {'x': 2.}))
        run.observe('decorated', key=(key, i))
        wit = dict(key=key, C=C, p=p)
        try:
            run.check(g(C, 5., p) == orig(C, 5., p) and g(C, 5.) == orig(C, 5.) and g(C, 5., p, extra=3) == orig(C, 5., p, extra=3)
                      and g.__name__ == 'f' and g.__doc__ == 'doc of f' and g.tag == i,
                      'a decorated function does not do what it did before', wit, kind='decorated')
            reg = w.Matcher if m else w.Translator
            rule = reg[key]
            run.check(rule.function(C, 5., p) == orig(C, 5., p), 'the registered rule does not call the decorated function', wit, kind='registered')
            if m:
                at = (rule.from_eft, rule.from_basis, rule.to_eft, rule.to_basis)
            else:
                at = (rule.eft, rule.from_basis, rule.to_basis)
            run.check(at == key, 'the rule registered as %s says it is %s' % (key, at), wit, kind='attributes')
            wc = w.WC(key[0], key[1], 5., {k: gen.value(rng, v) for k, v in C.items()})
            a = rule.match(wc, p) if m else rule.translate(wc, p)
            b = gen.apply(wc, key, p)
            want = {k: v for k, v in orig(C, 5., p).items() if v != 0}
            for o in (a, b):
                run.check({k: complex(v) for k, v in o.dict.items()} == want and (o.eft, o.basis) == (key[2] if m else key[0], key[-1]),
                          'user rule applied to a file gives %s, its function %s' % (o.dict, want), wit, kind='user')
        except Exception as e:
            run.violate('decorated rule: %s: %s' % (type(e).__name__, e), wit, kind='decorated raise')
        if rng.random() < .7:
            del reg[key]
