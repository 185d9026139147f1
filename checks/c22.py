"""C22: matching to fewer flavours restricts to the target basis."""
from vlib import drive, env, gen, monitor


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'result compared with the restriction of the input to the coefficients of the registered target basis'
    orig = {(r[2], r[3]): w.Basis[r[2], r[3]].sectors for r in gen.RESTRICT}

    def current(r):
        return [k for s in w.Basis[r[2], r[3]].sectors.values() for k in s]

    def sub(ev):
        if ev.route not in gen.RESTRICT:
            return
        n = gen.rname(ev.route)
        if ev.error is not None:
            run.violate('%s raised %r' % (n, ev.error), ev.C, kind='r' + n)
            return
        keys = set(current(ev.route))
        exp = {k: v for k, v in ev.C.items() if k in keys and v != 0}
        got = ev.result.dict
        run.observe('call', key=(n, len(ev.C), sorted(ev.C)[:2], len(keys)), nontrivial=bool(exp))
        run.check(got == exp, '%s: wrong restriction: missing %s, extra %s, changed %s' % (
            n, sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3],
            sorted(k for k in exp if k in got and got[k] != exp[k])[:3]),
            lambda: dict(input=ev.C, expected=exp, got=got), kind='v' + n)
    with monitor.Tap(w).subscribe(sub):
        for r in gen.RESTRICT:
            drive.small(run, w, rng, r, run.n(500, 4000))
        for rnd in range(run.n(12, 120)):
            for r in gen.RESTRICT:
                for st in gen.STYLES:
                    C = gen.route_input(rng, r, st, *rng.choice(((-9, -3), (-30, 5), (-322, -290), (280, 300), (-310, 300))))
                    wc = gen.make(w, rng, r, C, gen.scale(rng) if rng.random() < .8 else 10.**rng.uniform(-6, 1))
                    try:
                        gen.apply(wc, r, gen.params(rng))
                    except Exception:
                        pass
            # redefinition of the target basis: subsets, extra names, other sector layout, children
            for r in gen.RESTRICT:
                src = list(gen.keys_of(r[0], r[1]))
                full = list(gen.keys_of(r[2], r[3]))
                mode = rng.choice(('subset', 'superset', 'all', 'empty', 'child', 'newsector'))
                if mode == 'subset':
                    ks = [k for k in full if rng.random() < .5]
                elif mode == 'superset':
                    ks = full + rng.sample(src, min(5, len(src)))
                elif mode == 'all':
                    ks = src
                elif mode == 'empty':
                    ks = []
                else:
                    ks = [k for k in full if rng.random() < .7]
                rng.shuffle(ks)
                cut = rng.randint(0, len(ks))
                secs = {'sector0': {k: None for k in ks[:cut]}, 'sector1': {k: {} for k in ks[cut:] if k not in ks[:cut]}}
                if mode == 'child':
                    w.Basis(r[2], 'parent of ' + r[3], secs)
                    w.Basis(r[2], r[3], {'sector1': {k: {'real': True} for k in rng.sample(src, 5)}}, parent='parent of ' + r[3])
                else:
                    w.Basis(r[2], r[3], secs)
                for st in ('dense', 'sparse', 'few'):
                    C = gen.route_input(rng, r, st)
                    try:
                        gen.apply(gen.make(w, rng, r, C, 2.), r)
                    except Exception:
                        pass
                run.observe('redefined', key=(mode, r))
                w.Basis(r[2], r[3], orig[r[2], r[3]])
            # two-step chains
            C = gen.route_input(rng, gen.RESTRICT[4], 'dense')
            try:
                gen.make(w, rng, gen.RESTRICT[4], C, 2.).match('WET-4', 'JMS').match('WET-3', 'JMS').match('WET-2', 'JMS')
            except Exception:
                pass
            run.observe('chain')
    run.floor(call=300, redefined=40)
