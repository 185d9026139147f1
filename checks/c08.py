"""C08: translate / match dispatch, labels, completeness."""
import copy
import numpy as np
from vlib import env, doc, gen, monitor, drive


INF, NAN = float('inf'), float('nan')


class Own(Exception):
    pass


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'result of every call compared with what the recording rule returned; arguments compared with the file'
    builtin(run, w, rng)
    for h in range(run.n(100, 1500)):
        history(run, w, rng, 40)
    run.floor(**{'failing rule': 40}, rule=800, missing=500, builtin=100)


def special(rng):
    r = rng.random()
    if r < .12:
        return rng.choice((0, 0., 0j, -0., complex(0, -0.), np.float64(0), np.complex128(0)))
    if r < .3:
        return rng.choice((5e-324, -5e-324, 1e-300, 1e-30, complex(0, 1e-30), complex(0, 5e-324), complex(1e-310, 0), 1e300, complex(0, -1)))
    x = complex(rng.gauss(0, 1) * 10.**rng.randint(-40, 40), rng.gauss(0, 1) * 10.**rng.randint(-40, 40))
    if r < .5:
        x = x.real
    elif r < .6:
        x = complex(0, x.imag)
    return rng.choice((x, np.complex128(x) if isinstance(x, complex) else np.float64(x)))


def history(run, w, rng, steps):
    E, N = ['E', 'F', 'G é'], ['a', 'b', 'c', 'JMS']
    w.Translator.clear_all()
    w.Matcher.clear_all()
    rules, last = {}, {}
    for step in range(steps):
        op = rng.random()
        kind = rng.choice(('t', 'm'))
        k = (rng.choice(E), rng.choice(N), rng.choice(N)) if kind == 't' else (rng.choice(E), rng.choice(N), rng.choice(E), rng.choice(N))
        if op < .35:
            box = {}

            def f(C, scale, parameters, box=box):
                box['calls'] = box.get('calls', 0) + 1
                box['C'], box['scale'], box['parameters'] = dict(C), scale, copy.copy(parameters)
                if isinstance(box['ret'], Exception):
                    raise box['ret']
                return dict(box['ret'])
            r = rng.random()
            if r < .5:
                (w.Translator if kind == 't' else w.Matcher)(*(k + (f,)))
            else:
                (w.translator if kind == 't' else w.matcher)(*k)(f)
            rules[k] = box
            continue
        if op < .42 and rules:
            k = rng.choice(sorted(rules))
            del (w.Translator if len(k) == 3 else w.Matcher)[k]
            del rules[k]
            continue
        if rules and op < .85:
            k = rng.choice(sorted(rules))
        vals = {n: gen.value(rng, x) for n, x in ((doc.word(rng) or 'x', special(rng)) for _ in range(rng.randint(0, 5)))}
        sc = rng.choice((91.1876, 4, 160., rng.uniform(1, 1e4), rng.uniform(0, 1), 10.**rng.uniform(-9, 19), 1e-300, 2**60 + 1))
        wc = w.WC(k[0], k[1], sc, copy.deepcopy(vals), **({'metadata': {'a': 1}} if rng.random() < .3 else {}))
        snap = copy.deepcopy(doc.public(wc))
        p = rng.choice((None, {}, {'Vus': .2}, {'x': 1, 'alpha_s': .1}))
        box = rules.get(k)
        if box is not None:
            box['ret'] = {doc.word(rng) or 'y': special(rng) if rng.random() < .97 else rng.choice((INF, -INF, NAN)) for _ in range(rng.randint(0, 8))}
            if rng.random() < .08:
                box['ret'] = rng.choice((KeyError, AttributeError, ValueError, TypeError, ZeroDivisionError, IndexError, Own))('of the rule %d' % step)
            n0 = box.get('calls', 0)
        if rng.random() < .3 and last.get(k):
            # the same file object again, although the rule may now give something else
            wc, vals, sc, p = last[k]
            snap = copy.deepcopy(doc.public(wc))
        last[k] = (wc, vals, sc, p)
        style = rng.randint(0, 2)

        def call():
            if len(k) == 3:
                return wc.translate(k[2]) if p is None and style else wc.translate(k[2], p) if style < 2 else wc.translate(k[2], parameters=p)
            return wc.match(k[2], k[3]) if p is None and style else wc.match(k[2], k[3], p) if style < 2 else wc.match(k[2], k[3], parameters=p)
        try:
            out, err = call(), None
        except Exception as e:
            out, err = None, e
        wit = dict(key=k, values=vals, scale=sc, parameters=p, rules=sorted(map(str, rules)), returned=box and repr(box.get('ret')))
        run.check(doc.same(doc.public(wc), snap), 'translating changes the input file', wit, kind='mod')
        if box is None:
            run.observe('missing', key=(k, step))
            run.check(isinstance(err, ValueError), 'no rule for %s, but got %r' % (k, err if err is not None else out), wit, kind='missing')
            continue
        if isinstance(box['ret'], Exception):
            run.observe('failing rule', key=(k, step))
            run.check(type(err) is type(box['ret']) and err.args == box['ret'].args, 'the rule %s fails with %r, the caller gets %r' % (k, box['ret'], err if err is not None else out),
                      wit, kind='ruleerror')
            continue
        if not run.check(err is None, 'rule %s raised %r' % (k, err), wit, kind='raise'):
            continue
        run.observe('rule', key=(k, step), sample=wit)
        run.check(box.get('calls', 0) == n0 + 1, 'the registered rule was called %s times' % (box.get('calls', 0) - n0), wit, kind='calls')
        te, tb = (k[0], k[2]) if len(k) == 3 else (k[2], k[3])
        run.check((out.eft, out.basis, out.scale) == (te, tb, float(sc)), 'result labelled %s' % ((out.eft, out.basis, out.scale),), wit, kind='label')
        exp_in = {n: monitor.read(v) for n, v in vals.items()}
        run.check(box.get('C') == exp_in and box.get('scale') == float(sc), 'rule was given %s at scale %s' % (box.get('C'), box.get('scale')), wit, kind='args')
        run.check(box.get('parameters') == p or (not p and not box.get('parameters')), 'rule was given parameters %s' % (box.get('parameters'),), wit, kind='params')
        exp = {n: complex(x) for n, x in box['ret'].items() if x != 0}
        ok, d = run.guard(lambda: {n: complex(x) for n, x in out.dict.items()}, 'reading the result', wit)
        if ok:
            if any(x != x for x in exp.values()):
                d, exp = ({n: repr(x) if x != x else x for n, x in y.items()} for y in (d, exp))
            run.check(d == exp, 'result differs from what the rule computed: missing %s, extra %s, changed %s' % (
                [(n, exp[n]) for n in exp if n not in d][:3], [(n, d[n]) for n in d if n not in exp][:3], [(n, exp[n], d[n]) for n in exp if n in d and d[n] != exp[n]][:3]),
                wit, kind='value')
        run.check(type(out) is w.WC or isinstance(out, w.WC), 'result is %s' % type(out))


def near(s):
    return sorted({' ' + s, s + ' ', s + '\n', s.lower(), s.upper(), s.capitalize(), s.replace(' ', '_'), s.replace(' ', ''), s.replace(' ', '-'),
                   s[:-1], s + 's', s + '-4', s + '-5', '"%s"' % s, s.replace('-', ''), s.replace('-', '_'), s.replace('-', ' ')} - {s})


def builtin(run, w, rng):
    def sub(ev):
        if ev.result is None:
            if ev.route in gen.ROUTES:
                run.violate('%s raised %r' % (gen.rname(ev.route), ev.error), ev.C, kind='b' + gen.rname(ev.route))
            return
        r, o = ev.route, ev.result
        te, tb = (r[0], r[2]) if len(r) == 3 else (r[2], r[3])
        run.observe('builtin', key=(r, len(ev.C)))
        run.check((o.eft, o.basis, o.scale) == (te, tb, float(ev.scale)), '%s: result labelled %s' % (gen.rname(r), (o.eft, o.basis, o.scale)), kind='bl')
        z = [k for k, v in o.dict.items() if v == 0]
        run.check(not z, '%s: zero entries %s' % (gen.rname(r), z[:4]), kind='bz')
        # what the registered rule computes, asked directly
        rule = (w.Translator if len(r) == 3 else w.Matcher)[r]
        try:
            direct = rule.function(dict(ev.C), float(ev.scale), copy.deepcopy(ev.params))
        except Exception as e:
            return run.violate('%s: rule raises %r' % (gen.rname(r), e), ev.C, kind='bd' + gen.rname(r))
        exp = {k: complex(v) for k, v in direct.items() if v != 0}
        got = {k: complex(v) for k, v in o.dict.items()}
        bad = [k for k in set(exp) | set(got) if not exp.get(k, 0) == got.get(k, 0)]
        run.check(not bad, '%s: result differs from the rule: %s' % (gen.rname(r), [(k, exp.get(k, 0), got.get(k, 0)) for k in bad[:3]]),
                  lambda: dict(C=ev.C, scale=ev.scale, parameters=ev.params), kind='bv')
    with monitor.Tap(w).subscribe(sub):
        for r in gen.ROUTES:
            for st in ('dense', 'sparse', 'few', 'imag', 'perclass'):
                drive.call(run, w, rng, r, gen.route_input(rng, r, st), gen.scale(rng), gen.params(rng))
    # names that are nearly those of a rule
    for r in gen.ROUTES:
        for pos in range(len(r)):
            for v in near(r[pos]):
                q = r[:pos] + (v,) + r[pos + 1:]
                if q in gen.ROUTES:
                    continue
                wc = w.WC(q[0], q[1], 91., {})
                try:
                    gen.apply(wc, q)
                    run.violate('%s: succeeds without a rule' % gen.rname(q), kind='nr')
                except ValueError:
                    run.observe('near miss', key=q)
                except Exception as x:
                    run.violate('%s without a rule raises %r' % (gen.rname(q), x), kind='nrt')
    for e, b in (('WET', 'JMS'), ('SMEFT', 'Warsaw mass'), ('WET', 'EOS'), ('nope', 'x'), ('WET-2', 'JMS')):
        for tb in ('nope', b, '', 'Warsaw mass'):
            wc = w.WC(e, b, 91., {})
            for what, fn in (('translate', lambda: wc.translate(tb)), ('match', lambda: wc.match('WET-2', tb)), ('match', lambda: wc.match('nope', tb))):
                if (e, b, 'WET-2', tb) in gen.ROUTES:
                    continue
                try:
                    fn()
                    run.violate('%s from %s/%s to %s without a rule succeeds' % (what, e, b, tb), kind='nr')
                except ValueError:
                    run.observe('missing', key=(e, b, tb, what))
                except Exception as x:
                    run.violate('%s without a rule raises %r' % (what, x), kind='nrt')
