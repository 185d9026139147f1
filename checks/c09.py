"""C09: results depend on nothing but their inputs; calls have no side effects."""
import collections
import copy
import json
import os
import random
import subprocess
import sys
import threading
import time
from vlib import core, env, doc, gen, monitor, oracle, ref

ROOT = core.ROOT
CARD = ('card',)
EOS = ('eos',)


def opspec(rng, i):
    r = rng.random()
    if r < .05:
        keys = gen.keys_of('SMEFT', 'Warsaw mass')
        C = gen.coeffs(rng, keys, rng.choice(gen.STYLES))
        return dict(route=CARD, eft='SMEFT', basis='Warsaw mass', values=gen.values(rng, C), scale=1000.,
                    params=None, arg=[rng.choice('AB'), rng.choice((1000., 246., 5000.)), rng.choice(('alpha', 'mw'))])
    if r < .12:
        C = gen.coeffs(rng, gen.keys_of('WET', 'EOS'), rng.choice(gen.STYLES), -2, 1)
        universal(C)
        return dict(route=EOS, eft='WET', basis='EOS', values=gen.values(rng, C), scale=4.2, params=None,
                    arg={k: round(rng.uniform(-3, 3), 4) for k in
                         ['b->s::c%d' % i for i in range(1, 7)] + ['b->%s::%s{%s}' % (a, b, c) for b in ('Re', 'Im')
                          for a, cs in (('smumu', ('c9', 'c10')), ('see', ("c9'", 'cS')), ('ulnu', ('cVL', 'cT'))) for c in cs]})
    route = gen.ROUTES[i % len(gen.ROUTES)] if rng.random() < .6 else rng.choice(gen.ROUTES)
    C = gen.consistent(route, gen.route_input(rng, route, rng.choice(gen.STYLES)))
    # few scales and parameters, so that calls repeat some of what earlier ones used
    sc = rng.choice((160., 91.1876, 4.8, 2., 1000.)) if rng.random() < .7 else gen.scale(rng)
    return dict(route=route, eft=route[0], basis=route[1], values=gen.values(rng, C), scale=sc, params=gen.params(rng), arg=None)


def partner(k):
    return k.replace('munumu', 'enue') if 'munumu' in k else k.replace('enue', 'munumu')


def universal(C):
    """EOS has no lepton-specific charged currents: anything else is refused."""
    for k in list(C):
        if 'nu' in k:
            C[partner(k)] = C[k]
    return C


def variant(rng, op):
    """An earlier call with one thing changed."""
    op = copy.deepcopy(op)
    r = rng.random()
    if tuple(op['route']) in (CARD, EOS):
        r = .9 if r < .8 else r
    if r < .45:
        n = rng.choice(gen.CKM_PAR) if rng.random() < .5 else rng.choice(sorted(gen.RANGES))
        op['params'] = dict(op['params'] or {})
        if n in op['params'] and rng.random() < .2:
            del op['params'][n]
        else:
            op['params'][n] = rng.uniform(*gen.RANGES[n])
    elif r < .6:
        op['scale'] = rng.choice((160., 91.1876, 4.8, 2., 1000., 4.2, 3.))
    elif r < .75:
        others = [x for x in gen.ROUTES if x[:2] == tuple(op['route'][:2])]
        op['route'] = rng.choice(others)
    elif op['values']:
        keys = gen.keys_of(op['eft'], op['basis'])
        k = rng.choice(sorted(op['values']))
        v = complex(monitor.read(op['values'][k]))
        how = rng.choice(('scale', 'sign', 'conj', 'drop', 'add'))
        if how == 'drop' and len(op['values']) > 1:
            del op['values'][k]
        elif how == 'add' and tuple(op['route']) not in (CARD, EOS) and op['basis'] != 'FlavorKit':
            k2 = rng.choice(list(keys))
            op['values'][k2] = abs(v) or 1e-9
        else:
            v = {'sign': -v, 'conj': v.conjugate()}.get(how, 1.5 * v)
            op['values'][k] = {'Re': v.real, 'Im': v.imag} if v.imag else v.real
        if tuple(op['route']) == EOS and 'nu' in k:
            if k in op['values']:
                op['values'][partner(k)] = copy.deepcopy(op['values'][k])
            else:
                op['values'].pop(partner(k), None)
    return op


def build(w, op):
    return w.WC(op['eft'], op['basis'], op['scale'], copy.deepcopy(op['values']),
                metadata={'generator': 'x', 'tags': ['a', {'b': [1]}]}, notes=['n'])


def mutables(x, out=None):
    """All mutable containers reachable from an object, by identity."""
    out = {} if out is None else out
    if isinstance(x, (str, bytes, int, float, complex, type(None))) or id(x) in out:
        return out
    if isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutables(v, out)
    elif isinstance(x, (list, tuple, set)):
        if not isinstance(x, tuple):
            out[id(x)] = x
        for v in x:
            mutables(v, out)
    elif type(x).__module__ == 'numpy':
        if getattr(x, 'shape', ()):
            out[id(x)] = x
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        out[id(x)] = x
        mutables(vars(x), out)
    return out


def common(a, b):
    a, b = mutables(a), mutables(b)
    return [repr(a[i])[:200] for i in a if i in b]


def execute(w, op, wc, params, card=None):
    """-> (plain comparable dict, the raw result object)"""
    r = tuple(op['route'])
    if r == CARD:
        from wcxf.converters.smeftsim import initialize_smeftsim_card, smeftsim_card_fill
        s, lam, sch = op['arg']
        res = smeftsim_card_fill(card if card is not None else initialize_smeftsim_card(s), wc, s, lam, sch)
        d = {'%s %s' % (b, e[:-2]): float(e[-2]) for b, blk in res['Block'].items() for e in blk['values']}
        return d, res
    if r == EOS:
        from wcxf.converters.eos import wcxf2eos
        res = wcxf2eos(wc, {k: {'central': v} for k, v in op['arg'].items()})
        return {k: v['central'] for k, v in res.items()}, res
    res = gen.apply(wc, r, params)
    return {k: monitor.read(v) for k, v in res.values.items()}, res


def enc(d):
    return {k: [complex(v).real, complex(v).imag] for k, v in d.items()}


def dec(d):
    return {k: complex(*v) for k, v in d.items()}


def equal(op, a, b):
    """Bit-identical, or within the rounding of the route."""
    if {k: v for k, v in a.items() if v != 0} == {k: v for k, v in b.items() if v != 0}:
        return True, []
    r = tuple(op['route'])
    if r in (CARD, EOS):
        bad = [(k, a.get(k), b.get(k)) for k in set(a) | set(b)
               if not abs(a.get(k, 0) - b.get(k, 0)) <= 3e-6 * max(abs(a.get(k, 0)), abs(b.get(k, 0)))]
    else:
        C = {k: monitor.read(v) for k, v in op['values'].items()}
        tol = oracle.expected(r, C, op['scale'], op['params'])
        bad = [(k, a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b)
               if not abs(a.get(k, 0) - b.get(k, 0)) <= 2 * tol.get(k, (0, 0))[1]]
    return not bad, bad


def defaults(w):
    import wcxf.parameters as P
    return P.p


def registry(w):
    out = {}
    for e in ('SMEFT', 'WET', 'WET-4', 'WET-3', 'WET-2'):
        out[e] = w.EFT[e].sectors
        for b in w.EFT[e].known_bases:
            out[e, b] = (w.Basis[e, b].sectors, list(w.Basis[e, b].all_wcs))
    return out


class Watch:
    """Everything a call must leave alone."""

    def __init__(self, run, w):
        self.run, self.w = run, w
        self.reg = copy.deepcopy(registry(w))
        self.par = copy.deepcopy(defaults(w))
        if self.par != ref.DEFAULTS:
            run.violate('default parameters differ from the documented ones before any call', self.par)

    def small(self, what, op):
        r = self.run
        r.check(dict(defaults(self.w)) == self.par, 'default parameters modified by %s' % what,
                lambda: dict(op=op, now=dict(defaults(self.w))), kind='default')

    def full(self, what, op):
        r = self.run
        self.small(what, op)
        now = registry(self.w)
        r.observe('registry', key=r.evaluations)
        for k in self.reg:
            r.check(k in now and doc.same(now[k], self.reg[k]), '%s modified by %s' % (k, what), dict(op=op), kind='registry%s' % (k,))
        r.check(set(now) == set(self.reg), 'set of definitions changed by %s' % what, dict(op=op), kind='registry')


def observed(run, w, watch, op, what):
    """One call with snapshots of everything reachable before and after."""
    wc = build(w, op)
    read_first = run.rng.random() < .5
    if read_first:
        d0 = dict(wc.dict)
    snap, psnap = copy.deepcopy(doc.public(wc)), copy.deepcopy(op['params'])
    order = list(wc.values)
    p = copy.deepcopy(op['params'])
    ok, r = run.guard(lambda: execute(w, op, wc, p), what, lambda: op)
    if not ok:
        return None, None, None, None
    run.observe('call', key=(tuple(op['route']), len(op['values']), op['scale'], repr(sorted(op['params'] or ()))),
                sample=dict(route=op['route'], n=len(op['values']), phase=what))
    run.check(doc.same(doc.public(wc), snap), '%s changes the input file object' % gen.rname(op['route']), lambda: op, kind='input')
    run.check(list(wc.values) == order, '%s reorders the input' % gen.rname(op['route']), lambda: op, kind='order')
    want = {k: monitor.read(v) for k, v in op['values'].items()}
    run.check(dict(wc.dict) == want, '%s changes the numbers read from the input' % gen.rname(op['route']),
              lambda: dict(op=op, changed=[(k, wc.dict.get(k), want.get(k)) for k in set(wc.dict) | set(want) if wc.dict.get(k) != want.get(k)][:10]), kind='numbers')
    run.check(p == psnap, '%s changes the parameters passed in' % gen.rname(op['route']), lambda: dict(op=op, now=p), kind='params')
    sh = common(r[1], [wc, p])
    run.check(not sh, 'result of %s shares mutable data with its input: %s' % (gen.rname(op['route']), sh[:2]), lambda: op, kind='sharedid')
    watch.small(gen.rname(op['route']), op)
    return r[0], r[1], wc, p


def userrules(run, w, rng):
    """Rules of the user that hand back what they were given, or the same dictionary every time."""
    kept = {'x': 1.5, 'y': -2 + 1j, 'z': 0.}
    rules = dict(identity=lambda C, s, p: C, copy=lambda C, s, p: dict(C), kept=lambda C, s, p: kept,
                 ordered=lambda C, s, p: collections.OrderedDict(reversed(list(C.items()))),
                 parameters=lambda C, s, p: p if p else C,
                 partial=lambda C, s, p: {k: v for k, v in C.items() if k != 'x'})
    for n in sorted(rules):
        w.Translator('E09', 'a', n, rules[n])
        w.Matcher('E09', 'a', 'F09', n, rules[n])
    try:
        for i in range(run.n(240, 1500)):
            n = rng.choice(sorted(rules))
            vals = {k: v for k, v in (('x', rng.choice((1., 1, '1', {'Re': 1.}, {'Re': 1., 'Im': 2.}))), ('y', -2.5),
                                      ('z', rng.choice((0., 3e-9, {'Im': 4.})))) if rng.random() < .8}
            op = dict(route=('E09', 'a', n), eft='E09', basis='a', values=vals, scale=rng.choice((5., 91.1876)), arg=None,
                      params=rng.choice((None, {}, {'q': 2.}, {'q': 2., 'r': 1.})))
            wc = build(w, op)
            if rng.random() < .5:
                wc.dict
            snap, p = copy.deepcopy(doc.public(wc)), copy.deepcopy(op['params'])
            f = rng.choice((lambda: wc.translate(n, p), lambda: wc.match('F09', n, p),
                            lambda: w.Translator['E09', 'a', n].translate(wc, p), lambda: w.Matcher['E09', 'a', 'F09', n].match(wc, p)))
            ok, res = run.guard(f, 'user rule ' + n, lambda: op)
            if not ok:
                continue
            num = {k: monitor.read(v) for k, v in vals.items()}
            exp = dict(rules[n](dict(num), op['scale'], op['params']))
            exp = {k: v for k, v in exp.items() if v != 0}
            run.observe('user rule', key=(n, repr(vals), repr(p)))
            got = dict(res.dict)
            run.check(got == exp, 'user rule %s: result %s instead of %s' % (n, got, exp), lambda: op, kind='userresult')
            sh = common(res, [wc, p, kept])
            run.check(not sh, 'result of a user rule (%s) shares mutable data with its input: %s' % (n, sh[:2]), lambda: op, kind='sharedid')
            scramble(res.values)
            scramble(res.dict)
            for k, v in list(vars(res).items()):
                if k not in ('values', '_dict'):
                    scramble(v)
            run.check(doc.same(doc.public(wc), snap) and dict(wc.dict) == num, 'changing the result of a user rule (%s) changes its input' % n, lambda: op, kind='userinput')
            run.check(p == op['params'] and kept == {'x': 1.5, 'y': -2 + 1j, 'z': 0.}, 'changing the result of a user rule (%s) changes the parameters or the dictionary the rule keeps' % n, lambda: op, kind='userinput')
    finally:
        for n in rules:
            del w.Translator['E09', 'a', n]
            del w.Matcher['E09', 'a', 'F09', n]


def scramble(x):
    """Destroy a result object in place."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = -77.7
        x['junk'] = 1.
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        for i in range(len(x)):
            if not isinstance(x[i], (dict, list)):
                x[i] = -77


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = ('results of the same call at different points of a history, in threads, with shuffled input and in other '
                'processes compared with its first result; snapshots of all inputs, defaults and definitions around every call')
    watch = Watch(run, w)
    ops = []
    for i in range(run.n(220, 800)):
        # some calls differ from an earlier one in one thing only
        if ops and rng.random() < .4:
            ops.append(variant(rng, ops[-1] if rng.random() < .5 else rng.choice(ops)))
        else:
            ops.append(opspec(rng, i))
    # the first result of each call, in order
    first = []
    for i, op in enumerate(ops):
        d, res, wc, p = observed(run, w, watch, op, 'serial')
        first.append(d)
        if d is None:
            continue
        if i % 10 == 9:
            watch.full('serial calls', op)
        # result independent of the input: destroy the one, look at the other
        keep = copy.deepcopy(d)
        want = {k: monitor.read(v) for k, v in op['values'].items()}
        if i % 2:
            scramble(res.values if hasattr(res, 'values') and not isinstance(res, dict) else res)
            if hasattr(res, 'dict'):
                scramble(res.dict)
            run.check(doc.same(wc.values, op['values']) and wc.dict == want, 'result of %s shares data with its input' % gen.rname(op['route']), lambda: op, kind='shared')
            watch.small('changing a result', op)
        elif not isinstance(res, dict):
            before = copy.deepcopy(res.values)
            scramble(wc.values)
            scramble(wc.dict)
            if p is not None:
                scramble(p)
            run.check(doc.same(res.values, before), 'result of %s changes with its input' % gen.rname(op['route']), lambda: op, kind='shared2')
            watch.small('changing an input', op)
        run.observe('sharing', key=i)

    def again(i, d, phase):
        if d is None or first[i] is None:
            return
        ok, bad = equal(ops[i], first[i], d)
        run.observe(phase, key=(phase, i))
        run.check(ok, '%s (%s): result differs from the first time: %s' % (gen.rname(ops[i]['route']), phase, bad[:3]),
                  lambda: dict(op=ops[i], differing=bad[:20], phase=phase), kind=phase + gen.rname(ops[i]['route']))
    # other orders, repeated calls on one object, shuffled coefficients
    for rnd in range(run.n(1, 3)):
        idx = list(range(len(ops)))
        rng.shuffle(idx)
        for i in idx:
            op = dict(ops[i])
            items = list(op['values'].items())
            rng.shuffle(items)
            op['values'] = collections.OrderedDict(items) if rng.random() < .5 else dict(items)
            d, res, wc, p = observed(run, w, watch, op, 'reordered')
            again(i, d, 'reorder')
            if d is not None and rng.random() < .3 and tuple(op['route']) not in (CARD, EOS):
                again(i, execute(w, op, wc, op['params'])[0], 'sameobject')
                # result dumped and read back gives the same input for the next step
                wc2 = w.WC.load(wc.dump(fmt=rng.choice(('json', 'yaml'))))
                again(i, execute(w, op, wc2, op['params'])[0], 'reloaded')
        watch.full('reordered calls', None)
    # one parameter dictionary, edited in place to what each call needs
    reused = {}
    for i in rng.sample(range(len(ops)), min(len(ops), run.n(60, 300))):
        op = ops[i]
        if op['params'] is None or first[i] is None:
            continue
        reused.clear()
        reused.update(copy.deepcopy(op['params']))
        wc = build(w, op)
        want = wc.scale
        wc.scale = 7.     # a first call elsewhere in parameter space, then back
        ok, r = run.guard(lambda: execute(w, op, wc, reused), 'call', lambda: op)
        for k in list(reused):
            reused[k] *= 1.01
        ok, r = run.guard(lambda: execute(w, op, wc, reused), 'call', lambda: op)
        wc.scale = want
        reused.update(copy.deepcopy(op['params']))
        ok, r = run.guard(lambda: execute(w, op, wc, reused), 'call', lambda: op)
        if ok:
            again(i, r[0], 'edited')
    # cards filled into a reused card structure
    from wcxf.converters.smeftsim import initialize_smeftsim_card
    for s in 'AB':
        card = initialize_smeftsim_card(s)
        for i, op in enumerate(ops):
            if tuple(op['route']) == CARD and op['arg'][0] == s:
                ok, r = run.guard(lambda: execute(w, op, build(w, op), None, card), 'refilling a card', lambda: op)
                if ok:
                    again(i, r[0], 'refill')
    userrules(run, w, rng)
    failures(run, w, rng, ops, again, watch)
    threads(run, w, rng, ops, again)
    interleave(run, w, rng)
    watch.full('concurrent calls', None)
    processes(run, rng, ops, again)
    chains(run, w, rng)
    run.floor(**{'user rule': 100}, chain=300, interleaving=20, call=150, sharing=80, reorder=80, thread=80, process=100, registry=5, edited=25, afterfailure=60, afterinterrupt=40)


class Stop(Exception):
    pass


def failures(run, w, rng, ops, again, watch):
    """Calls that fail, or are interrupted at some line of the library, leave nothing behind."""
    src = os.path.join(core.REPO, 'wcxf')
    by = collections.defaultdict(list)
    for i, op in enumerate(ops):
        by[tuple(op['route'])].append(i)
    routes = sorted(by)

    def after(i, wc, phase):
        """the same call again, on the same object, and another call"""
        op = ops[i]
        run.check(doc.same(wc.values, op['values']) and wc.scale == op['scale'], '%s changes the input file object (%s)' % (gen.rname(op['route']), phase), lambda: op, kind='input' + phase)
        watch.small(phase, op)
        for j, o in ((i, wc if phase == 'afterfailure' else None), (rng.choice(by[tuple(op['route'])]), None), (rng.randrange(len(ops)), None)):
            ok, r = run.guard(lambda: execute(w, ops[j], o or build(w, ops[j]), copy.deepcopy(ops[j]['params'])), 'call after ' + phase, lambda: ops[j])
            if ok:
                again(j, r[0], phase)

    for n in range(run.n(110, 600)):
        i = rng.choice(by[routes[n % len(routes)]])
        op = copy.deepcopy(ops[i])
        how = rng.choice(('key', 'key', 'scale', 'parameter', 'value', 'target'))
        if op['basis'] in ('FlavorKit', 'EOS') and rng.random() < .6:     # refuse unknown keys
            how = 'key'
        wc = build(w, op)
        if how == 'key':
            if len(op['route']) > 2 and rng.random() < .7:      # other content
                op['values'] = gen.values(rng, gen.consistent(op['route'], gen.route_input(rng, op['route'], rng.choice(gen.STYLES))))
            op['values'] = dict(list(op['values'].items()) + [('no such_11', 1.)])
            wc2 = build(w, op)
        elif how == 'scale':
            wc2 = build(w, dict(op, scale=rng.choice((-3., 0.))))
        elif how == 'parameter':
            op['params'] = dict(op['params'] or {}, **{rng.choice(list(gen.CKM_PAR) + ['alpha_s', 'm_b', 'GF']): 'x'})
            wc2 = wc
        elif how == 'value':
            op['values'] = dict(list(op['values'].items()) + [(rng.choice(sorted(op['values']) or ['x']), 'no number')])
            wc2 = build(w, op)
        else:
            wc2 = wc
            if len(op['route']) > 2:
                op['route'] = tuple(op['route'][:-1]) + ('no such basis',)
        try:
            execute(w, op, wc2, copy.deepcopy(op['params']))
            run.counts['no failure'] += 1
        except Exception as e:
            run.counts['failed with ' + type(e).__name__] += 1
        after(i, wc, 'afterfailure')
    for n in range(run.n(70, 500)):
        i = rng.choice(by[routes[n % len(routes)]])
        op = ops[i]
        wc = build(w, op)
        left = [int(10**rng.uniform(0, 3.7))]
        hit = []

        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] == 0:
                    hit.append((os.path.relpath(frame.f_code.co_filename, src), frame.f_lineno))
                    raise Stop
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(src) else None
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            execute(w, op, wc, copy.deepcopy(op['params']))
        except Exception:
            pass
        finally:
            sys.settrace(old)
        run.counts['interrupted'] += bool(hit)
        if hit:
            run.observe('crash point', key=hit[0])
        after(i, wc, 'afterinterrupt')


def interleave(run, w, rng):
    """The same route in three threads on different inputs, with yields injected between lines of the library's
    own code: often where a line is first reached, rarely inside hot loops."""
    src = os.path.join(core.REPO, 'wcxf')
    for route in gen.ROUTES * run.n(1, 6):
        ops = []
        for t in range(3):
            r = route if t < 2 or rng.random() < .6 else rng.choice([x for x in gen.ROUTES if x[0] == route[0]])
            C = gen.consistent(r, gen.route_input(rng, r, rng.choice(('dense', 'mixed', 'pair', 'sparse'))))
            ops.append(dict(route=r, eft=r[0], basis=r[1], values=gen.values(rng, C), scale=gen.scale(rng), params=gen.params(rng), arg=None))
        alone = []
        for op in ops:
            ok, r = run.guard(lambda: execute(w, op, build(w, op), copy.deepcopy(op['params'])), 'call', lambda: op)
            alone.append(r[0] if ok else None)
        if None in alone:
            continue
        trace, results, errors = [], {}, []
        begin = threading.Barrier(3)
        seeds = [rng.random() for _ in ops]

        def body(t):
            r = random.Random(seeds[t])
            seen = {}

            def local(frame, event, arg):
                if event == 'line':
                    k = (frame.f_code, frame.f_lineno)
                    n = seen[k] = seen.get(k, 0) + 1
                    if r.random() * n < .6:
                        trace.append(t)
                        time.sleep(2e-5)
                return local

            def tracer(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(src) else None
            begin.wait()
            sys.settrace(tracer)
            try:
                results[t] = [execute(w, ops[t], build(w, ops[t]), copy.deepcopy(ops[t]['params']))[0] for _ in range(2)]
            except Exception as e:
                errors.append((t, e))
            finally:
                sys.settrace(None)
        ts = [threading.Thread(target=body, args=(t,)) for t in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for t, e in errors:
            run.violate('concurrent %s raised %r' % (gen.rname(ops[t]['route']), e), ops[t], kind='threaderror')
        sw = sum(a != b for a, b in zip(trace, trace[1:]))
        run.counts['injected_yields'] += len(trace)
        run.counts['injected_switches'] += sw
        run.observe('interleaving', key=tuple(trace), nontrivial=sw > 10)
        for t, ds in results.items():
            for d in ds:
                ok, bad = equal(ops[t], alone[t], d)
                run.check(ok, '%s: result in concurrent threads differs from the one alone: %s' % (gen.rname(ops[t]['route']), bad[:3]),
                          lambda: dict(op=ops[t], others=[o['route'] for o in ops], differing=bad[:20]), kind='thread' + gen.rname(ops[t]['route']))


def chains(run, w, rng):
    """Pairs of calls that differ in one thing: here in one order, in another process in the opposite one."""
    ops = []
    for route in gen.ROUTES:
        C = gen.consistent(route, gen.route_input(rng, route, rng.choice(('dense', 'mixed'))))
        vals = gen.values(rng, C)
        alt = sorted(gen.RANGES) + ['scale', None, None]
        if len(route) == 4 and route[0] == 'SMEFT' and not run.thorough:
            alt = rng.sample(alt, 7)
        for n in alt:
            base = dict(route=route, eft=route[0], basis=route[1], values=vals, scale=rng.uniform(2, 100),
                        params=gen.params(rng, 'all'), arg=None)
            op = copy.deepcopy(base)
            if n in gen.RANGES:
                op['params'][n] = rng.uniform(*gen.RANGES[n])
            elif n:
                op['scale'] = 3.
            else:
                op = variant(rng, base)
            ops += [base, op]
    import concurrent.futures as cf
    p = start('2')
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(p.communicate, json.dumps(ops[::-1], default=lambda o: o.item()))
        first = []
        for op in ops:
            ok, r = run.guard(lambda: execute(w, op, build(w, op), copy.deepcopy(op['params'])), 'call', lambda: op)
            first.append(r[0] if ok else None)
        out, err = fut.result()
    if p.returncode != 0:
        run.violate('fresh process failed: %s' % err.strip().splitlines()[-1:], err[-2000:])
        return
    for op, a, b in zip(ops, first, [dec(d) for d in json.loads(out.splitlines()[-1])][::-1]):
        if a is None:
            continue
        ok, bad = equal(op, a, b)
        run.observe('chain', key=(op['route'], repr(op['params']), op['scale']))
        run.check(ok, '%s: result differs between two histories of calls that differ in one thing each: %s' % (gen.rname(op['route']), bad[:3]),
                  lambda: dict(op=op, differing=bad[:20]), kind='chain' + gen.rname(op['route']))


def start(hs):
    envv = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([sys.executable, '-W', 'ignore', '-c',
                             'import sys; sys.path[:0]=[%r,%r]; from checks import c09; c09.worker()' % (ROOT, core.REPO)],
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=envv, text=True)


def threads(run, w, rng, ops, again):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for rnd in range(run.n(2, 6)):
            results, errors, trace = {}, [], []
            seeds = [rng.random() for _ in range(6)]
            # one shared object used by all threads, and private ones
            shared = rng.choice([o for o in ops if tuple(o['route']) not in (CARD, EOS)])
            swc = build(w, shared)
            swc.dict        # numbers are read once, before the object is shared
            sidx = ops.index(shared)
            start = threading.Barrier(6)

            def body(t):
                r = random.Random(seeds[t])
                mine = r.sample(range(len(ops)), min(len(ops), 25 if run.thorough else 14))
                start.wait()
                for j, i in enumerate(mine):
                    trace.append((t, i))
                    try:
                        results[t, j] = (i, execute(w, ops[i], build(w, ops[i]), copy.deepcopy(ops[i]['params']))[0])
                        if j % 5 == 0:
                            results[t, j, 's'] = (sidx, execute(w, shared, swc, shared['params'])[0])
                    except Exception as e:
                        errors.append((i, e))
                    trace.append((t, i))
            ts = [threading.Thread(target=body, args=(t,)) for t in range(6)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for i, e in errors:
                run.violate('concurrent %s raised %r' % (gen.rname(ops[i]['route']), e), ops[i], kind='threaderror')
            for k in sorted(results, key=str):
                again(results[k][0], results[k][1], 'thread')
            # overlap actually seen: switches between threads inside calls
            sw = sum(a[0] != b[0] for a, b in zip(trace, trace[1:]))
            run.counts['thread_switches'] += sw
            run.observe('schedule', key=tuple(trace))
    finally:
        sys.setswitchinterval(old)


def processes(run, rng, ops, again):
    jobs = []
    for k, hs in enumerate(('0', '1', '4711', 'random') if run.thorough else ('0', '4711', '1')):
        # one process in the opposite order, the others in any order
        idx = list(range(len(ops)))[::-1]
        if k:
            rng.shuffle(idx)
        p = start(hs)
        jobs.append((p, idx, json.dumps([ops[i] for i in idx], default=lambda o: o.item())))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        outs = list(ex.map(lambda j: j[0].communicate(j[2]), jobs))
    for (p, idx, _), (out, err) in zip(jobs, outs):
        if p.returncode != 0:
            run.violate('fresh process failed: %s' % err.strip().splitlines()[-1:], err[-2000:])
            continue
        for i, d in zip(idx, json.loads(out.splitlines()[-1])):
            again(i, dec(d), 'process')


def worker():
    import warnings
    warnings.simplefilter('ignore')
    w = env.load()
    ops = json.load(sys.stdin)
    out = [enc(execute(w, op, build(w, op), op['params'])[0]) for op in ops]
    print(json.dumps(out))
