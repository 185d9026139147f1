"""C32: definition files shipped with the package are available after import."""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from vlib import core, doc, stage, bases as B, env, gen

PROBE = '''
import sys, json
import wcxf
from wcxf import EFT, Basis
pub = lambda o: {k: v for k, v in o.__dict__.items() if not k.startswith('_')}
want = json.load(sys.stdin)
def find(reg, names):
    names = list(names) + [n for n in getattr(reg, 'instances', ()) if n not in names]
    res = []
    for n in names:
        try:
            res.append((n, reg[n]))
        except (KeyError, AttributeError):
            pass
    return res
efts = find(EFT, want['eft'])
bases = find(Basis, [tuple(k) for k in want['basis']])
for k, e in efts:
    for b in e.known_bases:
        if (k, b) not in [x for x, _ in bases]:
            bases.append(((k, b), Basis[k, b]))
out = dict(eft=[[k, pub(o)] for k, o in efts],
           basis=[[list(k), pub(o), list(o.all_wcs)] for k, o in bases],
           known={k: list(o.known_bases) for k, o in efts},
           file=wcxf.__file__, translators=[list(k) for k, _ in find(wcxf.Translator, [tuple(k) for k in want['translators']])],
           matchers=[list(k) for k, _ in find(wcxf.Matcher, [tuple(k) for k in want['matchers']])])
sys.stdout.write('RESULT' + json.dumps(out))
'''
ROOTS = ('plain', 'with space', 'with[brackets]', 'uni\u00e9code', 'star*', 'a.b-c+d', 'q?', 'site[12]/lib')


def name(rng, used):
    while True:
        n = rng.choice(('WET', 'SMEFT', 'Warsaw', 'Warsaw up', 'B', 'b', 'x.y', 'basis', 'eft', 'JMS-2', 'flavio 2', 'Bern', 'F.basis', 'child', 'E1', 'E2')) + rng.choice(('', '', '1', '22'))
        if n not in used:
            used.add(n)
            return n


def definitions(rng):
    """-> list of (kind, dict) in the order parents first, and the expected content."""
    defs, exp, effs = [], {}, []
    used = set()
    for i in range(rng.randint(1, 4)):
        e = name(rng, used)
        secs = ['s%d' % k for k in range(rng.randint(1, 6))]
        d = dict(eft=e, sectors={s: rng.choice((None, {}, {'tex': doc.text(rng)})) for s in secs})
        if rng.random() < .4:
            d['metadata'] = {'description': doc.text(rng), 'n': [1, 2.5, None]}
        defs.append(('eft', d))
        effs.append((e, secs))
    shared = [name(rng, set()) for _ in range(3)]       # names used in several EFTs
    for e, secs in effs:
        bs = set()
        mine = []
        for i in range(rng.choice((0, 1, 2, 5))):
            b = rng.choice(shared) if rng.random() < .5 else name(rng, bs)
            if b in mine:
                continue
            sec = {s: {'%s_%d' % (s, k): doc.plain(doc.meta(rng)) for k in range(rng.randint(0, 5))} for s in rng.sample(secs, rng.randint(0, len(secs)))}
            d = dict(eft=e, basis=b, sectors=sec)
            if rng.random() < .4:
                d['metadata'] = {'description': doc.text(rng)}
            defs.append(('basis', d))
            exp[e, b] = (d, copy.deepcopy(sec))
            mine.append(b)
        for i in range(rng.choice((0, 1, 3))):
            if not mine:
                break
            b = 'c%d ' % i + rng.choice(shared)
            par = rng.choice(mine)
            sec = {s: {'%s_own%d' % (s, k): None for k in range(rng.randint(0, 3))} for s in rng.sample(secs, rng.randint(0, len(secs)))}
            d = dict(eft=e, basis=b, sectors=sec, parent=par)
            full = copy.deepcopy(exp[e, par][1])
            full.update(copy.deepcopy(sec))
            defs.append(('basis', d))
            exp[e, b] = (d, full)
    return defs, exp


def install(rng, root, defs):
    shutil.copytree(os.path.join(core.REPO, 'wcxf'), os.path.join(root, 'wcxf'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc', 'bases', 'test_*'))
    bd = os.path.join(root, 'wcxf', 'bases')
    os.makedirs(os.path.join(bd, 'child'))
    order = list(enumerate(defs))
    rng.shuffle(order)           # creation order decides the directory order on some file systems
    same = rng.random() < .4    # file names that are the same in both directories, or differ in case only
    for i, (kind, d) in order:
        pre = rng.choice('abcxyzABCZ019_') + '%d' % i + rng.choice(('', '', 'long' * rng.randint(1, 30)))
        if kind == 'eft':
            fn = os.path.join(bd, pre + d['eft'].replace(' ', '_') + '.eft.json')
        else:
            fn = os.path.join(bd, 'child' if 'parent' in d else '', pre + d['basis'].replace(' ', '_') + '.basis.json')
        if same:
            for n in ('x', 'X', 'basis', 'x.y', 'eft', '0', 'WET'):
                alt = os.path.join(os.path.dirname(fn), n + ('.eft.json' if kind == 'eft' else '.basis.json'))
                if not os.path.exists(alt):
                    fn = alt
                    break
        with open(fn, 'w', encoding='utf-8') as f:
            json.dump(d, f, indent=rng.choice((None, 2)), ensure_ascii=rng.random() < .6)
    # files that are not definitions
    for x in ('README.md', 'LICENSE', 'notes.json', 'child/notes.txt', 'WET.basis.json.bak'):
        if rng.random() < .4:
            with open(os.path.join(bd, x), 'w') as f:
                f.write('not a definition {')


def probe(root, cwd, defs):
    want = dict(eft=[d['eft'] for k, d in defs if k == 'eft'], basis=[[d['eft'], d['basis']] for k, d in defs if k == 'basis'],
                translators=gen.TRANSLATORS, matchers=gen.MATCHERS)
    e = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
    e.pop('PYTHONHASHSEED', None)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROBE], input=json.dumps(want).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=120)
    if r.returncode:
        return None, r.stderr.decode('utf-8', 'replace')
    return json.loads(r.stdout.decode('utf-8').split('RESULT', 1)[1]), None


def run(run):
    env.load(register=False)
    rng = run.rng
    run.rule = 'registry after importing a staged copy of the package compared with the definition files placed in it'
    scratch = tempfile.mkdtemp(prefix='verif_defs_')
    import concurrent.futures as cf
    try:
        jobs = []
        for i in range(run.n(40, 300)):
            defs, exp = definitions(rng)
            if i == 0:
                defs, exp = [], {}
            if i == 1:
                defs = list(B.all_definitions(env.flavorkit()))
                exp = {(d['eft'], d['basis']): (d, d['sectors']) for k, d in defs if k == 'basis'}
            where = ROOTS[i % len(ROOTS)]
            root = os.path.join(scratch, str(i), where)
            os.makedirs(root)
            install(rng, root, defs)
            cwd = rng.choice((scratch, root, os.path.join(scratch, str(i)), '/'))
            jobs.append((i, where, root, cwd, defs, exp))
            if len(jobs) == 8 or i == run.n(40, 300) - 1:
                with cf.ThreadPoolExecutor(4) as ex:
                    res = list(ex.map(lambda j: probe(j[2], j[3], j[4]), jobs))
                for j, (got, err) in zip(jobs, res):
                    judge(run, j, got, err)
                    shutil.rmtree(os.path.join(scratch, str(j[0])), ignore_errors=True)
                jobs = []
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    run.floor(**{'import': 30, 'eft': 40, 'basis': 50, 'child': 15})


def judge(run, j, got, err):
    i, where, root, cwd, defs, exp = j
    wit = dict(installed_in=where, definitions=[d for k, d in defs][:40])
    if not run.check(got is not None, 'importing the package with %d definition files fails: %s' % (len(defs), (err or '').strip().splitlines()[-1:]),
                     dict(wit, stderr=(err or '')[-1500:]), kind='import'):
        return
    run.check(os.path.realpath(got['file']).startswith(os.path.realpath(root)), 'harness: another copy of the package was imported', got['file'])
    run.observe('import', key=i, sample=dict(installed_in=where, files=len(defs), found=len(got['eft']) + len(got['basis'])))
    efts = {d['eft']: d for k, d in defs if k == 'eft'}
    ge = dict((k, o) for k, o in got['eft'])
    run.check(set(ge) == set(efts), 'EFTs available after import: missing %s, superfluous %s (installed in %r)' % (
        sorted(set(efts) - set(ge)), sorted(set(ge) - set(efts)), where), wit, kind='efts')
    for k in set(ge) & set(efts):
        run.observe('eft', key=(i, k))
        run.check(doc.same(ge[k], doc.plain(efts[k])), 'EFT %r differs from its definition file' % k, dict(wit, got=ge[k], expected=efts[k]), kind='eft')
    gb = {tuple(k): (o, a) for k, o, a in got['basis']}
    run.check(set(gb) == set(exp), 'bases available after import: missing %s, superfluous %s (installed in %r)' % (
        sorted(set(exp) - set(gb))[:5], sorted(set(gb) - set(exp))[:5], where), wit, kind='bases')
    for k in set(gb) & set(exp):
        d, sec = exp[k]
        o, a = gb[k]
        run.observe('child' if 'parent' in d else 'basis', key=(i, k))
        run.check(doc.same(o, doc.plain(dict(d, sectors=sec))), 'basis %s differs from its definition file' % (k,),
                  lambda: dict(wit, got=o, expected=dict(d, sectors=sec)), kind='basis')
        run.check(sorted(a) == sorted(c for s in sec.values() for c in s), 'coefficient list of %s differs from its definition file' % (k,), wit, kind='wcs')
    for e in set(ge) & set(efts):
        run.check(sorted(got['known'][e]) == sorted(b for x, b in exp if x == e), 'known bases of %r: %s' % (e, got['known'][e]), wit, kind='known')
    for r in gen.TRANSLATORS:
        run.check(list(r) in got['translators'], 'translator %s missing after import' % gen.rname(r), wit, kind='tr')
    for r in gen.MATCHERS:
        run.check(list(r) in got['matchers'], 'matcher %s missing after import' % gen.rname(r), wit, kind='ma')
