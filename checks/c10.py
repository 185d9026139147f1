"""C10: user parameters are honoured in every route."""
import collections
from vlib import env, gen, drive, monitor, oracle, ref


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'each call with overridden parameters compared with the reference evaluated at the merged parameters; defaults given explicitly must be bit-identical to none given'
    routes = list(gen.ROUTES)
    for r in routes:
        reg = w.Translator if len(r) == 3 else w.Matcher
        run.guard(lambda: reg[r], 'look-up of the built-in rule ' + gen.rname(r))
    with monitor.Tap(w).subscribe(oracle.route_oracle(run, set(routes))):
        for rnd in range(run.n(1, 6)):
            for r in routes:
                C = gen.consistent(r, gen.route_input(rng, r, 'dense'))
                sc = gen.scale(rng)
                dflt = drive.call(run, w, rng, r, C, sc, None, noarg=True)
                same = drive.call(run, w, rng, r, C, sc, dict(ref.DEFAULTS))
                if dflt is not None and same is not None:
                    run.observe('defaults', key=r)
                    diff = [k for k in set(dflt.dict) | set(same.dict) if dflt.dict.get(k, 0) != same.dict.get(k, 0)]
                    run.check(not diff, '%s: giving the default parameters explicitly changes %s' % (gen.rname(r), diff[:5]),
                              lambda: dict(C=C, scale=sc))
                if r in gen.RESTRICT:
                    drive.call(run, w, rng, r, C, sc, gen.params(rng, 'all'))
                    continue
                for name in sorted(gen.RANGES):
                    val = rng.uniform(*gen.RANGES[name])
                    out = drive.call(run, w, rng, r, C, sc, {name: val})
                    if out is not None and dflt is not None:
                        eff = sum(out.dict.get(k, 0) != dflt.dict.get(k, 0) for k in set(out.dict) | set(dflt.dict))
                        run.observe('override', key=(r, name), nontrivial=eff > 0,
                                    sample=dict(route=gen.rname(r), parameter=name, coefficients_changed=eff))
                # special values of each parameter alone
                for name in sorted(gen.RANGES):
                    drive.call(run, w, rng, r, C, sc, {name: gen.special_param(rng, name)})
                # unusual mixings; elements set to zero where nothing is divided by them
                for p in ({'Vus': .8, 'Vcb': .3, 'Vub': .1}, {'Vus': -.22}, {'Vub': -3e-3}, {'Vcb': -.04, 'gamma': -1.}) if r not in gen.SMEFT_MATCH or rng.random() < .4 else ():
                    drive.call(run, w, rng, r, C, sc, p)
                    run.observe('unusual', key=(r, tuple(p)))
                if r in gen.ZEROCKM:
                    for p in ({'Vub': 0}, {'Vcb': 0.}, {'Vub': 0., 'Vcb': 0}, {'Vub': 0, 'gamma': 2.}):
                        drive.call(run, w, rng, r, C, sc, p)
                        run.observe('zero', key=(r, tuple(p)))
                if r not in gen.SMEFT_MATCH or rng.random() < .4:
                    for val in (-1.2, 3.1, 4.0, 1, 1e-3, 7.5, -20.5):
                        drive.call(run, w, rng, r, C, sc, {'gamma': val})
                        run.observe('gamma', key=(r, val))
                for i in range(run.n(2, 8)):
                    p = collections.OrderedDict(gen.params(rng, rng.choice(['some', 'all'])))
                    drive.call(run, w, rng, r, gen.consistent(r, gen.route_input(rng, r, rng.choice(gen.STYLES))), sc, p)
                # parameters by keyword
                p = gen.params(rng, 'all')
                wc = gen.make(w, rng, r, C, sc)
                try:
                    if len(r) == 3:
                        wc.translate(r[2], parameters=p)
                    else:
                        wc.match(r[2], r[3], parameters=p)
                except Exception:
                    pass    # reported by the oracle
        # one parameter dictionary and one file object edited between calls
        for rnd in range(run.n(1, 4)):
            p = gen.params(rng, 'all')
            for r in rng.sample(routes, len(routes)):
                wc = gen.make(w, rng, r, gen.consistent(r, gen.route_input(rng, r, rng.choice(gen.STYLES))), gen.scale(rng))
                for step in range(3):
                    try:
                        gen.apply(wc, r, p)
                    except Exception:
                        break       # reported by the oracle
                    run.observe('edited', key=(r, step, len(p)))
                    e = rng.random()
                    if e < .3:
                        wc.scale = float(gen.scale(rng))
                    elif e < .5 and p:
                        del p[rng.choice(sorted(p))]
                    else:
                        p.update(gen.params(rng, 'some'))
    run.floor(call=300, defaults=30, override=200, edited=90)
    run.assumptions.append('documented default parameter values are frozen in the oracle')
