"""C03: validation of coefficient files against a changing registry."""
import copy
import json
import os
import subprocess
import sys
from vlib import core, env, doc, gen, bases as B

EFTS = ('SMEFT', 'WET', 'WET-4', 'WET-3', 'WET-2')


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'accept/reject of each validation compared with a set model of the registry'
    builtin(run, w, rng)
    related(run, w, rng)
    for h in range(run.n(200, 1500)):
        history(run, w, rng, run.n(60, 80))
    interpreters(run, rng)
    run.floor(interpreter=4, accept=300, reject_coeff=150, reject_basis=100, reject_eft=100)


CODE = """
import sys, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
import wcxf
out = []
for step in json.load(sys.stdin):
    if step[0] == 'eft':
        wcxf.EFT(**step[1])
    elif step[0] == 'basis':
        wcxf.Basis(**step[1])
    else:
        try:
            wcxf.WC(**step[1]).validate()
            out.append(None)
        except Exception as e:
            out.append(str(e) or repr(e))
print(json.dumps(out))
"""


def interpreters(run, rng):
    """The same validations under other interpreter settings."""
    for opts in ((), ('-O',), ('-OO',), ('-X', 'utf8'), ('-B', '-E'), ('-X', 'dev')):
        steps, want = [], []
        for e in ('E1', 'E2'):
            steps.append(('eft', dict(eft=e, sectors={'s': None, 't': None})))
            for b in ('B1', 'B2'):
                steps.append(('basis', dict(eft=e, basis=b, sectors={'s': {'c%s%d' % (b, i): None for i in range(5)}, 't': {'k' + e: {'real': True}}})))
        for _ in range(run.n(40, 200)):
            e, b = rng.choice(('E1', 'E2', 'E2', 'E3')), rng.choice(('B1', 'B2', 'B3'))
            ks = ['cB1%d' % i for i in range(5)] if rng.random() < .6 else ['cB2%d' % i for i in range(5)]
            ks = rng.sample(ks, rng.randint(0, 5)) + rng.sample(['kE1', 'kE2', 'zz'], rng.choice((0, 0, 1)))
            steps.append(('wc', dict(eft=e, basis=b, scale=10, values={k: rng.choice((0, 1., {'Re': 1, 'Im': 2})) for k in ks})))
            known = {'cB%s%d' % (b[1], i) for i in range(5)} | {'k' + e}
            want.append([e] if e == 'E3' else [b] if b == 'B3' else sorted(set(ks) - known))
        r = subprocess.run([sys.executable, *opts, '-c', CODE, core.REPO], input=json.dumps(steps), capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        if not run.check(r.returncode == 0, 'python %s: validation process failed' % ' '.join(opts), r.stderr[-2000:]):
            continue
        got = json.loads(r.stdout.splitlines()[-1])
        run.observe('interpreter', key=opts, sample=dict(options=opts, accepted=sum(g is None for g in got), refused=sum(g is not None for g in got)))
        files = [s[1] for s in steps if s[0] == 'wc']
        for f, g, names in zip(files, got, want):
            if names:
                run.check(g is not None, 'python %s: file with unknown %s accepted' % (' '.join(opts), names), f, kind='interp')
                run.check(g is None or all(n in g for n in names), 'python %s: error %r does not name %s' % (' '.join(opts), g, names), f, kind='interpname')
            else:
                run.check(g is None, 'python %s: valid file refused: %s' % (' '.join(opts), g), f, kind='interprefused')


def verdict(run, wc, exp, names, wit):
    snap = copy.deepcopy(doc.public(wc))
    try:
        wc.validate()
        err = None
    except Exception as e:
        err = e
    run.observe(exp if exp == 'accept' else 'reject_' + exp, key=repr(names)[:80] + repr(sorted(wc.values))[:80])
    if exp == 'accept':
        run.check(err is None, 'valid file refused: %r' % err, wit, kind='refused')
    else:
        if not run.check(err is not None, 'file with unknown %s accepted' % exp, wit, kind='accepted' + exp):
            return
        run.check(isinstance(err, (ValueError, AssertionError, KeyError)), 'validation raised %r' % err, wit, kind='type')
        for n in names:
            run.check(n in str(err) or repr(n)[1:-1] in str(err), 'error %r does not name %r' % (str(err)[:200], n), wit, kind='message' + exp)
    run.check(doc.same(doc.public(wc), snap), 'validation modifies the file', wit, kind='mod')


def builtin(run, w, rng):
    for e, b in (('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET', 'flavio'), ('WET-4', 'Bern'), ('WET', 'EOS')):
        keys = gen.keys_of(e, b)
        for st in gen.STYLES:
            C = gen.coeffs(rng, keys, st)
            verdict(run, w.WC(e, b, 91., gen.values(rng, C)), 'accept', [], dict(eft=e, basis=b, C=C))
            other = gen.keys_of('WET', 'FlavorKit') if b != 'FlavorKit' else keys
            bad = [k for k in rng.sample(list(other), 3) if k not in keys] or ['nope']
            D = dict(C)
            D.update({k: 1. for k in bad})
            verdict(run, w.WC(e, b, 91., D), 'coeff', bad, dict(eft=e, basis=b, C=D))
            # many wrong entries: all are named
            bad = ['unknown_%d' % n for n in range(rng.choice((12, 60)))]
            D = dict(C)
            D.update({k: 1. for k in bad})
            verdict(run, w.WC(e, b, 91., D), 'coeff', bad, dict(eft=e, basis=b, C=D))
            # near misses of existing names
            k = rng.choice(list(keys))
            for x in (k.upper(), k.lower(), k + ' ', ' ' + k, k + '_', k[:-1], k + '1', k.replace('_', ''), k[::-1]):
                if x not in keys:
                    verdict(run, w.WC(e, b, 91., {x: 1.}), 'coeff', [x], dict(eft=e, basis=b, C=x))
            # near misses of the basis and EFT names; bases of a related EFT
            for x in (b + ' ', ' ' + b, b.upper(), b.lower(), b.swapcase(), b[:-1], b + '2', b.replace(' ', ''), b + '\n', ''):
                if x != b:
                    verdict(run, w.WC(e, x, 91., gen.values(rng, C)), 'basis', [x], dict(eft=e, basis=x))
            for x in (e + ' ', ' ' + e, e.lower(), e[:-1], e + '-5', e.replace('-', ''), e.split('-')[0] + '-', ''):
                if x not in EFTS:
                    verdict(run, w.WC(x, b, 91., gen.values(rng, C)), 'eft', [x], dict(eft=x, basis=b))
            # single wrong entry hidden in a large file, zero or not
            D = dict(gen.coeffs(rng, keys, 'dense'))
            D['zz_9'] = rng.choice((0, 0.0, {'Re': 0}, 1e-300))
            verdict(run, w.WC(e, b, 91., gen.values(rng, {k: v for k, v in D.items() if k != 'zz_9'}) | {'zz_9': D['zz_9']}),
                    'coeff', ['zz_9'], dict(eft=e, basis=b))


def related(run, w, rng):
    """every pair of a known EFT and the name of a basis of another one"""
    pairs = sorted((d['eft'], d['basis']) for k, d in B.all_definitions(env.flavorkit()) if k == 'basis')
    for e in sorted({x for x, _ in pairs}):
        for b in sorted({x for _, x in pairs}):
            if (e, b) in pairs:
                verdict(run, w.WC(e, b, 5., {}), 'accept', [], dict(eft=e, basis=b))
            else:
                src = rng.choice([x for x, y in pairs if y == b])
                keys = list(w.Basis[src, b].all_wcs)
                for vals in ({}, {rng.choice(keys): 1.}):
                    verdict(run, w.WC(e, b, 5., vals), 'basis', [b], dict(eft=e, basis=b, values=vals))


def history(run, w, rng, steps):
    for c in (w.EFT, w.Basis):
        c.clear_all()
    efts, bases = {}, {}
    E = rng.choice((['E1', 'E2', 'Eé', 'SMEFT'], ['E', 'E-2', 'E-3', 'E '], ['WET', 'WET-4', 'wet', 'WET-4 ']))
    Bn = rng.choice((['B1', 'B2', 'Warsaw', 'b 3'], ['B', 'B ', 'b', 'B up'], ['Warsaw', 'Warsaw up', 'Warsawup', 'warsaw']))
    K = ['c%d' % i for i in range(6)] + ['Ca', 'C_11', 'x y', 'Re', 'Im', '1', "c9'", 'C1', 'c1 ', ' c2', 'c_1', 'c01', 'ca', 'C_1', 'C_111', 'c1p', 'c', '', 'Cé', 'κ_1', '日本']
    pool = []
    for e in rng.sample(E, rng.randint(0, 3)):
        w.EFT(e, {'s0': None})
        efts[e] = True
    for step in range(steps):
        op = rng.random()
        if op < .12:
            e = rng.choice(E)
            w.EFT(e, {'s%d' % i: None for i in range(3)})
            efts[e] = True
        elif op < .3:
            k = (rng.choice(E), rng.choice(Bn))
            sec = {'s%d' % i: {x: rng.choice((None, {}, {'real': True})) for x in rng.sample(K, rng.randint(0, 6))}
                   for i in range(rng.randint(0, 3))}
            par = [b for b in bases if b[0] == k[0] and b != k]
            if par and rng.random() < .4:
                p = rng.choice(par)
                ok, _ = run.guard(lambda: w.Basis(k[0], k[1], copy.deepcopy(sec), parent=p[1]), 'child basis', k)
                full = dict(bases[p])
                full.update(sec)
                bases[k] = full
            else:
                w.Basis(k[0], k[1], copy.deepcopy(sec))
                bases[k] = sec
            if rng.random() < .5:
                w.Basis[k].all_wcs
        elif op < .34 and efts:
            e = rng.choice(sorted(efts))
            del w.EFT[e]
            del efts[e]
        elif op < .4 and bases:
            b = rng.choice(sorted(bases))
            del w.Basis[b]
            del bases[b]
        elif op < .41:
            w.Basis.clear_all()
            bases.clear()
        else:
            e, b = (rng.choice(E), rng.choice(Bn)) if rng.random() < .4 or not bases else rng.choice(sorted(bases))
            known = {x for s in bases.get((e, b), {}).values() for x in s}
            ks = rng.sample(sorted(known), rng.randint(0, len(known)))
            if rng.random() < .4:
                ks += rng.sample(K, rng.randint(0, 3))
            vals = {x: rng.choice((1., 0, {'Re': 1, 'Im': 2}, '3', 1e-300, -2, {'Im': 1})) for x in ks}
            if pool and rng.random() < .35:
                # a file object validated before, perhaps with changed content
                wc = rng.choice(pool)
                e, b = wc.eft, wc.basis
                known = {x for s in bases.get((e, b), {}).values() for x in s}
                r = rng.random()
                if r < .3:
                    wc.values = vals
                elif r < .5:
                    wc.values[rng.choice(K)] = 1.
                elif r < .6 and wc.values:
                    del wc.values[rng.choice(sorted(wc.values))]
                elif r < .7:
                    wc.basis = b = rng.choice(Bn)
                    known = {x for s in bases.get((e, b), {}).values() for x in s}
                vals = wc.values
            else:
                how = rng.random()
                more = {} if rng.random() < .5 else rng.choice((dict(metadata={'generator': 'g', 'basis': 'Warsaw'}), dict(metadata={}), dict(note='c1', sectors={'s0': {'zz': None}})))
                sc = rng.choice((100, 91.1876, '160.', 1e-3, 1e9))
                wc = w.WC(e, b, sc, vals, **copy.deepcopy(more)) if how < .6 else w.WC.load(json.dumps(dict(eft=e, basis=b, scale=sc, values=vals, **more)))
                pool.append(wc)
            if rng.random() < .25:
                # something else done with the file first
                run.counts['used before'] += 1
                rng.choice((lambda: wc.dict, lambda: str(wc), lambda: wc.dump(fmt='json'), lambda: repr(wc), lambda: copy.deepcopy(wc)))()
            wit = dict(eft=e, basis=b, values=vals, efts=sorted(efts), bases=sorted(map(str, bases)), known=sorted(known))
            if e not in efts:
                verdict(run, wc, 'eft', [e], wit)
            elif (e, b) not in bases:
                verdict(run, wc, 'basis', [b], wit)
            else:
                bad = sorted(set(vals) - known)
                verdict(run, wc, 'coeff' if bad else 'accept', bad, wit)
