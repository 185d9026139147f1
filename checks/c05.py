"""C05: inheritance of bases."""
import copy
import json
from vlib import env, doc


def run(run):
    w = env.load(register=False)
    rng = run.rng
    run.rule = 'content of all registered bases compared with a model after every definition'
    for h in range(run.n(150, 2000)):
        history(run, w, rng, 30)
    run.floor(define=500, child=500, orphan=200, compare=3000)


def history(run, w, rng, steps):
    w.Basis.clear_all()
    efts = rng.choice((['E', 'F'], ['WET', 'WET-4', 'W', 'wet'], ['E', 'E ', 'EE', ''], ['SMEFT', 'SMEFT-2', 'MSMEFT']))
    for e in efts:
        w.EFT(e, {'s%d' % i: None for i in range(6)})
    model, order, log = {}, {}, []
    S = ['s%d' % i for i in range(6)]
    names = rng.choice((['b%d' % i for i in range(8)], ['b', 'b1', 'b11', 'B', 'b ', 'JMS', 'Jms']))

    def secs():
        return {s: {'c%d' % rng.randint(0, 30): doc.meta(rng) for _ in range(rng.randint(0, 4))} for s in rng.sample(S, rng.randint(0, 4))}

    def compare():
        for k, exp in model.items():
            b = w.Basis[k]
            run.observe('compare', key=(k, len(log)))
            run.check(doc.same(b.sectors, exp), 'sectors of %s changed: %s, defined as %s' % (k, list(b.sectors), list(exp)),
                      lambda: dict(log=log, basis=k, got=b.sectors, expected=exp), kind='sectors')
            all_ = sorted(c for s in exp.values() for c in s)
            run.check(sorted(b.all_wcs) == all_, 'coefficient list of %s is not that of its sectors' % (k,),
                      lambda: dict(log=log, basis=k, got=sorted(b.all_wcs), expected=all_), kind='all_wcs')
    for step in range(steps):
        e, n = rng.choice(efts), rng.choice(names)
        own = secs()
        given = copy.deepcopy(own)
        op = rng.random()
        cand = [k for k in model if k[0] == e]
        if op < .3 or (op < .75 and not cand):
            kw = dict(eft=e, basis=n, sectors=given)
            run.guard(lambda: make(w, rng, kw), 'definition', log)
            model[e, n] = copy.deepcopy(own)
            log.append(('define', e, n, own))
            run.observe('define', key=(e, n, step))
        elif op < .75:
            p = rng.choice(cand)
            kw = dict(eft=e, basis=n, sectors=given, parent=p[1])
            exp = copy.deepcopy(model[p])
            exp.update(copy.deepcopy(own))
            log.append(('child', e, n, p[1], own))
            ok, b = run.guard(lambda: make(w, rng, kw), 'child definition', log)
            if not ok:
                return
            model[e, n] = exp
            run.observe('child', key=(e, n, p, step))
            run.check(b.parent == p[1], 'child does not keep the name of its parent')
        elif op < .9:
            # parent missing (or only present for the other EFT)
            absent = [x for x in names + ['nope'] if (e, x) not in model]
            others = [x for x in absent if any((f, x) in model for f in efts)]
            p = rng.choice(others) if others and rng.random() < .7 else rng.choice(absent) if absent else 'nope'
            run.counts['parent in another EFT only'] += p in others
            kw = dict(eft=e, basis=n, sectors=given, parent=p)
            log.append(('orphan', e, n, p))
            try:
                make(w, rng, kw)
                run.violate('basis with missing parent %r accepted' % p, log, kind='orphan')
            except ValueError:
                pass
            except Exception as x:
                run.violate('missing parent gives %r' % x, log, kind='orphantype')
            run.observe('orphan', key=(e, n, p, step))
            if (e, n) not in model:
                try:
                    w.Basis[e, n]
                    run.violate('basis whose parent does not exist is registered', log, kind='registered')
                except (KeyError, AttributeError):
                    pass
        elif op < .95 and model:
            k = rng.choice(sorted(model))
            b = w.Basis[k]
            try:
                rng.choice((b.validate, lambda: b.all_wcs, lambda: str(b), lambda: b.dump(fmt='yaml'), lambda: b.dump()))()
            except ValueError:
                pass     # e.g. duplicate coefficients
            log.append(('use', k))
        elif model:
            k = rng.choice(sorted(model))
            del w.Basis[k]
            del model[k]
            log.append(('delete', k))
        if own and step % 3 == 0:
            run.check(doc.same(given, own), 'definition changes the sectors passed in', log, kind='given')
        compare()


def make(w, rng, kw):
    r = rng.random()
    if r < .5:
        return w.Basis(**kw)
    if r < .75:
        return w.Basis.load(json.dumps(doc.plain(kw)))
    import yaml
    return w.Basis.load(yaml.safe_dump(doc.plain(kw)))
