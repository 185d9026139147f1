"""C06: registries of EFTs, bases, translators and matchers."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from vlib import env, gen, bases as B
from vlib.core import REPO


def run(run):
    w = env.load(register=False)
    rng = run.rng
    run.rule = 'look-ups and known lists compared with an ordered-map model after every operation'
    fresh(run)
    staged(run, rng)
    # built-in rules present after import
    for r in gen.ROUTES:
        reg = w.Translator if len(r) == 3 else w.Matcher
        run.guard(lambda: reg[r], 'built-in rule %s' % gen.rname(r))
        run.observe('builtin', key=r)
    for h in range(run.n(120, 1500)):
        history(run, w, rng, 50)
    many(run, w, rng)
    run.floor(many=3, lookup=3000, known=1500, staged=4, fresh=1)


def many(run, w, rng):
    """A large number of definitions: none is forgotten, the order is kept."""
    kinds = {'EFT': w.EFT, 'Basis': w.Basis, 'Translator': w.Translator, 'Matcher': w.Matcher}
    for c in kinds.values():
        c.clear_all()
    n = run.n(5000, 40000)
    f = lambda C, scale, parameters: C
    objs = {'EFT': {}, 'Basis': {}, 'Translator': {}, 'Matcher': {}}
    for i in range(n):
        e, b = 'E%d' % (i // 40), 'b%d' % i
        if i % 40 == 0:
            objs['EFT'][e] = w.EFT(e, {})
        objs['Basis'][e, b] = w.Basis(e, b, {})
        objs['Translator'][e, 'b%d' % (i // 40 * 40), b] = w.Translator(e, 'b%d' % (i // 40 * 40), b, f)
        objs['Matcher'][e, b, 'E0', 'b0'] = w.Matcher(e, b, 'E0', 'b0', f)
    for kd, m in objs.items():
        bad = []
        for k, o in m.items():
            try:
                if kinds[kd][k] is not o:
                    bad.append(k)
            except Exception:
                bad.append(k)
        run.check(not bad, '%d of %d %s definitions are not found, e.g. %r' % (len(bad), len(m), kd, bad[:2]), kind='many' + kd)
        run.observe('many', key=kd)
    for e in rng.sample(sorted(objs['EFT']), 5):
        i = int(e[1:])
        exp = ['b%d' % j for j in range(i * 40, min(n, i * 40 + 40))]
        run.check(list(w.EFT[e].known_bases) == exp, 'known bases of %s: %s' % (e, w.EFT[e].known_bases[:3]), kind='manyknown')
        kt = w.Basis[e, 'b%d' % (i * 40)].known_translators
        run.check(list(kt['from']) == [(e, exp[0], b) for b in exp], 'known translators from %s/%s: %s' % (e, exp[0], kt['from'][:3]), kind='manykt')
    for c in kinds.values():
        c.clear_all()


def history(run, w, rng, steps):
    kinds = {'EFT': w.EFT, 'Basis': w.Basis, 'Translator': w.Translator, 'Matcher': w.Matcher}
    for c in kinds.values():
        c.clear_all()
    M = {k: {} for k in kinds}
    E, N = rng.choice(((['E', 'F', 'WET'], ['a', 'b', 'c']), (['WET', 'WET-4', 'wet'], ['Warsaw', 'Warsaw up', 'warsaw']), (['E', 'EE', 'E '], ['', 'E', 'JMS', 'é'])))
    log = []

    def key(kind):
        e, x, y = rng.choice(E), rng.choice(N), rng.choice(N)
        return {'EFT': e, 'Basis': (e, x), 'Translator': (e, x, y), 'Matcher': (e, x, rng.choice(E), y)}[kind]

    def define(kind, k):
        if kind == 'EFT':
            return w.EFT(k, {'s': None}) if rng.random() < .5 else w.EFT.load(json.dumps(dict(eft=k, sectors={})))
        if kind == 'Basis':
            if rng.random() < .3:
                return w.Basis.load(json.dumps(dict(eft=k[0], basis=k[1], sectors={})))
            return w.Basis(k[0], k[1], {'s': {'c': None}})
        f = lambda C, scale, parameters: dict(C)
        if rng.random() < .5:
            dec = w.translator if kind == 'Translator' else w.matcher
            g = dec(*k)(f)
            run.check(g is f, 'the decorator does not return the function', kind='decorator')
            o = kinds[kind][k]
        else:
            o = kinds[kind](*(k + (f,)))
        run.check(o.function is f, 'the rule does not hold the given function', kind='function')
        return o
    for step in range(steps):
        kind = rng.choice(sorted(kinds))
        cls, m = kinds[kind], M[kind]
        op = rng.random()
        if op < .55:
            k = key(kind)
            log.append(('define', kind, k))
            ok, o = run.guard(lambda: define(kind, k), 'definition', log)
            if ok:
                m[k] = o
        elif op < .75 and m:
            k = rng.choice(sorted(m))
            log.append(('delete', kind, k))
            if rng.random() < .5:
                run.guard(lambda: cls.__class__.__delitem__(cls, k), 'deletion', log)
            else:
                run.guard(lambda: cls.del_instance(k), 'deletion', log)
            del m[k]
        elif op < .78:
            log.append(('clear', kind))
            cls.clear_all()
            m.clear()
        elif op < .84:
            # deleting something absent fails and changes nothing
            k = key(kind)
            if k not in m:
                log.append(('delete absent', kind, k))
                try:
                    del cls[k]
                    run.violate('deleting the absent %s %r succeeds' % (kind, k), log, kind='delabsent')
                except (KeyError, AttributeError, LookupError):
                    pass
        # look up everything
        for kd, c in kinds.items():
            for _ in range(3):
                k = key(kd)
                try:
                    o = c[k] if rng.random() < .5 else c.get_instance(k)
                except Exception as x:
                    o = x
                run.observe('lookup', key=(kd, k, step))
                if k in M[kd]:
                    run.check(o is M[kd][k], 'looking up %s %r gives %r, not the latest definition' % (kd, k, o), log, kind='lookup' + kd)
                else:
                    run.check(isinstance(o, (KeyError, AttributeError, LookupError)), 'looking up the absent %s %r gives %r' % (kd, k, o), log, kind='absent' + kd)
        # the lists are not looked at after every operation
        if rng.random() < .4:
            continue
        for e, o in M['EFT'].items():
            if rng.random() < .2:
                continue
            run.observe('known', key=(e, step, 'eft'))
            exp = sorted(b for (x, b) in M['Basis'] if x == e)
            run.check(sorted(o.known_bases) == exp, 'known bases of %s: %s instead of %s' % (e, o.known_bases, exp), log, kind='kb')
            exp = sorted(t for t in M['Translator'] if t[0] == e)
            run.check(sorted(o.known_translators) == exp, 'known translators of %s: %s instead of %s' % (e, o.known_translators, exp), log, kind='kt')
        for (e, b), o in M['Basis'].items():
            if rng.random() < .2:
                continue
            run.observe('known', key=(e, b, step))
            f = sorted(t for t in M['Translator'] if t[:2] == (e, b))
            t = sorted(t for t in M['Translator'] if (t[0], t[2]) == (e, b))
            kt = o.known_translators
            run.check(sorted(kt['from']) == f and sorted(kt['to']) == t, 'known translators of basis %s: %s instead of from %s to %s' % ((e, b), kt, f, t), log, kind='kbt')


def py(code, path, *args):
    e = dict(os.environ, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run([sys.executable, '-W', 'ignore', '-c', code] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=300, cwd='/')


def fresh(run):
    """known lists and look-ups before anything is defined"""
    code = ("import wcxf\n"
            "if hasattr(wcxf.Basis, 'instances') and wcxf.Basis.instances: print('BASES'); raise SystemExit\n"
            "e = wcxf.EFT('X', {}); print(list(e.known_bases), list(e.known_translators))\n"
            "b = wcxf.Basis('X', 'b', {}); print(list(e.known_bases), {k: list(v) for k, v in b.known_translators.items()})\n")
    r = py(code, REPO)
    run.observe('fresh', key=1)
    if r.stdout.decode().strip() == 'BASES':
        return
    run.check(r.returncode == 0 and r.stdout.decode().split('\n')[:2] == ["[] []", "['b'] {'from': [], 'to': []}"],
              'known lists in a fresh process: %s %s' % (r.stdout.decode(), r.stderr.decode()[-300:]))


def staged(run, rng):
    """shipped definition files are loaded on import, children after parents"""
    tmp = tempfile.mkdtemp(prefix='verif_c06_')
    try:
        for trial in range(run.n(4, 20)):
            root = os.path.join(tmp, 't%d' % trial)
            shutil.copytree(os.path.join(REPO, 'wcxf'), os.path.join(root, 'wcxf'), ignore=shutil.ignore_patterns('bases', '__pycache__', 'test_*'))
            bd = os.path.join(root, 'wcxf', 'bases')
            os.makedirs(os.path.join(bd, 'child'))
            exp = {'efts': [], 'bases': {}}
            # adversarial names: children sort before parents
            ne = rng.randint(1, 3)
            for i in range(ne):
                e = 'E%d' % i
                dump(os.path.join(bd, '%s.eft.json' % rng.choice(('z%d' % i, e))), dict(eft=e, sectors={'s': None, 't': None}))
                exp['efts'].append(e)
                for j in range(rng.randint(1, 3)):
                    dump(os.path.join(bd, '%s%d%d.basis.json' % (rng.choice('az'), i, j)),
                         dict(eft=e, basis='b%d' % j, sectors={'s': {'c%d' % j: None}}))
                    exp['bases']['%s|b%d' % (e, j)] = ['c%d' % j]
                for j in range(rng.randint(0, 2)):
                    dump(os.path.join(bd, 'child', '%s%d%d.basis.json' % (rng.choice('A0z'), i, j)),
                         dict(eft=e, basis='child%d' % j, parent='b0', sectors={'t': {'k%d' % j: None}}))
                    exp['bases']['%s|child%d' % (e, j)] = ['c0', 'k%d' % j]
            with open(os.path.join(bd, 'README.md'), 'w') as f:
                f.write('not a definition')
            dump(os.path.join(bd, 'something.json'), dict(a=1))
            code = ("import wcxf, json, sys\nout = {'efts': [], 'bases': {}}\nexp = json.loads(sys.argv[1])\n"
                    "for e in exp['efts']:\n  out['efts'].append(wcxf.EFT[e].eft)\n"
                    "for k in exp['bases']:\n  out['bases'][k] = sorted(wcxf.Basis[tuple(k.split('|'))].all_wcs)\n"
                    "out['nb'] = sum(len(wcxf.EFT[e].known_bases) for e in exp['efts'])\n"
                    "print('OUT' + json.dumps(out))")
            r = py(code, root, json.dumps(exp))
            run.observe('staged', key=trial, sample=dict(expected=exp))
            s = [l for l in r.stdout.decode().splitlines() if l.startswith('OUT')]
            if run.check(bool(s), 'shipped definitions not available after import: %s' % r.stderr.decode()[-400:], exp, kind='staged'):
                got = json.loads(s[0][3:])
                run.check(got['efts'] == exp['efts'] and got['bases'] == exp['bases'] and got['nb'] == len(exp['bases']),
                          'shipped definitions not loaded as written: %s' % got, exp, kind='staged2')
            shutil.rmtree(root)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dump(fn, d):
    with open(fn, 'w') as f:
        json.dump(d, f)
