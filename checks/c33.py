"""C33: repeated use accumulates no resources."""
import atexit
import collections
import copy
import gc
import io
import logging
import os
import random
import shutil
import sys
import tempfile
import threading
import tracemalloc
import warnings
import weakref
import yaml
from vlib import core, env, doc, gen, cmd
from checks import c09, c04

# bytes a series of calls may add: a kept input or result takes far more per call
BASE, LIMIT, LONG = 20000, 3000, 1000


class Params(dict):
    """A dictionary that can be watched."""


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[f] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out


def children():
    out = []
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % t) as f:
                out += f.read().split()
        except OSError:
            pass
    return out


def state():
    """process-wide lists that calls could add to"""
    logs = [logging.getLogger()] + [x for x in list(logging.Logger.manager.loggerDict.values()) if isinstance(x, logging.Logger)]
    return {'log handlers': sum(len(x.handlers) for x in logs), 'log filters': sum(len(x.filters) for x in logs), 'loggers': len(logs),
            'warning filters': len(warnings.filters), 'exit handlers': atexit._ncallbacks(), 'import path': len(sys.path), 'environment': len(os.environ),
            'imported modules': len(sys.modules), 'garbage collector callbacks': len(gc.callbacks), 'uncollectable objects': len(gc.garbage)}


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = ('weak references to inputs, parameters and results after each call; open files, threads, child processes and temporary '
                'files before and after; traced memory over series of calls with different data')
    tmp = tempfile.mkdtemp(prefix='verif_c33_')
    saved = dict(os.environ), tempfile.tempdir
    try:
        t, bindir = os.path.join(tmp, 'tmp'), os.path.join(tmp, 'bin')
        os.mkdir(t)
        os.mkdir(bindir)
        with open(os.path.join(bindir, 'latex'), 'w') as f:
            f.write(c04.SCRIPT)
        os.chmod(os.path.join(bindir, 'latex'), 0o755)
        tempfile.tempdir = t
        os.environ.update(TMPDIR=t, FAKE_RECORD=os.path.join(tmp, 'rec'), FAKE_MODE='normal')
        os.environ['PATH'] = bindir + os.pathsep + os.environ['PATH']
        ops = operations(run, w, rng, tmp)
        released(run, w, rng, ops, t)
        growth(run, w, rng, ops)
        running(run, rng)
        tiny(run, w, rng)
        definitions(run, w, rng)
    finally:
        os.environ.clear()
        os.environ.update(saved[0])
        tempfile.tempdir = saved[1]
        shutil.rmtree(tmp, ignore_errors=True)
    run.floor(released=150, series=35, definition=60, lists=80, tiny=20)


def operations(run, w, rng, tmp):
    """name -> list of closures building fresh inputs and returning (objects to watch, what the call returned)"""
    out = collections.OrderedDict()
    n = run.n(10, 24)

    def convert(op):
        def f():
            wc = c09.build(w, op)
            p = Params(copy.deepcopy(op['params'])) if op['params'] is not None else None
            d, res = c09.execute(w, op, wc, p)
            return [wc] + ([p] if p is not None else []) + ([res] if isinstance(res, (w.WC,)) else []), d
        return f

    def failing(op):
        def f():
            wc = w.WC(op['eft'], op['basis'], op['scale'], dict(copy.deepcopy(op['values']), nope_99=1.))
            try:
                c09.execute(w, op, wc, Params(op['params'] or {}))
            except Exception:
                pass
            return [wc], None
        return f
    for route in list(gen.ROUTES):
        k = 4 if len(route) == 4 and route[0] == 'SMEFT' and not run.thorough else n
        fs = []
        for i in range(k):
            C = gen.consistent(route, gen.route_input(rng, route, rng.choice(('dense', 'mixed', 'dense'))))
            op = dict(route=route, eft=route[0], basis=route[1], values=gen.values(rng, C), scale=rng.uniform(2, 300), params=gen.params(rng, rng.choice(('all', 'some'))), arg=None)
            fs.append(convert(op))
        out[gen.rname(route)] = fs
    op = dict(route=('WET', 'FlavorKit', 'JMS'), eft='WET', basis='FlavorKit', params=None, arg=None)
    out['failing call'] = [failing(dict(op, values=gen.values(rng, gen.consistent(op['route'], gen.route_input(rng, op['route'], 'dense'))), scale=rng.uniform(2, 99))) for i in range(n)]
    out['card'] = []
    out['EOS parameters'] = []
    while len(out['card']) < 5 or len(out['EOS parameters']) < n:
        op = c09.opspec(rng, 0)
        if op['route'] == c09.CARD and len(out['card']) < 5:
            out['card'].append(convert(op))
        elif op['route'] == c09.EOS and len(out['EOS parameters']) < n:
            out['EOS parameters'].append(convert(op))
    # many short calls, each at its own scale and with its own parameters
    def short(i):
        route, key = ((('WET', 'JMS', 'flavio'), 'dgamma_23'), (('WET', 'flavio', 'Bern'), 'C7_bs'), (('SMEFT', 'Warsaw', 'Warsaw mass'), 'uG_12'),
                      (('WET', 'JMS', 'formflavor'), 'dG_13'))[i % 4]
        return convert(dict(route=route, eft=route[0], basis=route[1], values={key: 1e-5 * (i + 1)}, scale=3 + .1 * i, params={'Vus': .2 + 1e-4 * i}, arg=None))
    out['many calls'] = [short(i) for i in range(run.n(240, 1200))]

    # files
    def reading(d, i):
        def f():
            a = w.WC(**copy.deepcopy(d))
            s = a.dump(fmt=('json', 'yaml')[i % 2])
            b = w.WC.load(s)
            fn = os.path.join(tmp, 'file%d' % i)
            with open(fn, 'w') as g:
                b.dump(stream=g, fmt=('yaml', 'json')[i % 2])
            with open(fn) as g:
                c = w.WC.load(g)
            c.validate()
            str(c)
            os.remove(fn)
            return [a, b, c], None
        return f
    out['dump, load, validate, print'] = [reading(dict(eft='WET', basis='flavio', scale=rng.uniform(2, 99), values=doc.plain(gen.values(rng, gen.coeffs(rng, gen.keys_of('WET', 'flavio'), 'dense')))), i) for i in range(n)]

    def basis(sec, i):
        def f():
            b = w.Basis('WET', 'resource test', copy.deepcopy(sec), **({'parent': 'flavio'} if i % 2 else {}))
            try:
                b.validate()
            except ValueError:
                pass
            str(b)
            b.all_wcs
            del w.Basis['WET', 'resource test']
            return [b], None
        return f
    secs = list(w.EFT['WET'].sectors)
    out['basis validation'] = [basis({secs[0]: {'x%d' % k: {'tex': r'\badcommand' if i % 3 == 0 else 'O'} for k in range(60)}}, i) for i in range(n)]

    def nolatex(sec, i):
        f = basis(sec, i)

        def g():
            path = os.environ['PATH']
            os.environ['PATH'] = os.path.join(tmp, 'nothing here')
            try:
                return f()
            finally:
                os.environ['PATH'] = path
        return g
    out['basis validation without LaTeX'] = [nolatex({secs[0]: {'x%d' % k: {'tex': 'O'} for k in range(60)}}, i) for i in range(n)]

    def eosfiles(i, sm):
        from wcxf.converters.eos import get_sm_wcs
        d = os.path.join(tmp, 'eos%d' % i)
        os.mkdir(d)
        cmd.write(os.path.join(d, 'a.yaml'), yaml.safe_dump(dict(sm, **{'@metadata@': {'wcxf-relevant': True}})))
        cmd.write(os.path.join(d, 'b.yaml'), yaml.safe_dump({'other': {'central': 1.}}))
        return lambda: ([], len(get_sm_wcs(d)))
    out['reading EOS files'] = [eosfiles(i, {'b->s%d::Re{c%d}' % (i, k): {'central': rng.random()} for k in range(100)}) for i in range(n)]

    def converting(d, i):
        from wcxf.converters.yamljson import convert_json, convert_yaml

        def f():
            a, b = io.StringIO(), io.StringIO()
            convert_json(io.StringIO(yaml.safe_dump(d)), a)
            convert_yaml(io.StringIO(a.getvalue()), b)
            return [a, b], None
        return f
    out['YAML/JSON conversion'] = [converting({'values': {k: doc.num(rng) for k in doc.names(rng, 150)}, 'x': doc.plain(doc.data(rng, 3))}, i) for i in range(n)]

    def tensors(C):
        from wcxf.util import smeftutil
        from wcxf.translators import smeft as ts
        import numpy as np

        def f():
            T = smeftutil.add_missing(smeftutil.symmetrize(ts.wcxf2arrays(C)))
            V = np.linalg.qr(np.array([[random.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0]
            R = smeftutil.flavor_rotation(T, V, V, V, V, V)
            ts.arrays2wcxf(R)
            return [v for v in list(T.values()) + list(R.values()) if isinstance(v, np.ndarray)], None
        return f
    out['tensors'] = [tensors(gen.coeffs(rng, gen.keys_of('SMEFT', 'Warsaw'), 'dense')) for i in range(n)]
    return out


def released(run, w, rng, ops, t):
    """After the caller lets go of everything, nothing is left."""
    for name, fs in ops.items():
        for nth, f in enumerate(fs[:run.n(4, 12)] + fs[100:106]):
            gc.collect()
            lists = state()
            before, th, kids, files = fds(), threading.active_count(), children(), os.listdir(t)
            ok, r = run.guard(f, name, name)
            if not ok:
                continue
            refs = []
            for o in r[0]:
                try:
                    refs.append((type(o).__name__, weakref.ref(o)))
                except TypeError:
                    pass
            r = o = None
            gc.collect()
            run.observe('released', key=(name, run.evaluations), nontrivial=bool(refs) or name.startswith('reading'))
            run.counts['objects watched'] += len(refs)
            alive = [n for n, x in refs if x() is not None]
            run.check(not alive, '%s: %s still referenced after the caller dropped it' % (name, sorted(set(alive))), dict(operation=name), kind='alive' + name)
            if nth:     # the first call may set something up
                more = {k: v for k, v in state().items() if v > lists[k]}
                run.observe('lists', key=(name, nth))
                run.check(not more, '%s: a further call adds to %s' % (name, sorted(more)), dict(operation=name, before=lists, after=more), kind='lists' + name)
            now = fds()
            run.check(now == before, '%s: open files left: %s' % (name, [v for k, v in now.items() if before.get(k) != v]), dict(operation=name), kind='fd' + name)
            run.check(threading.active_count() <= th, '%s: threads left running' % name, dict(operation=name), kind='thread' + name)
            run.check(set(children()) <= set(kids), '%s: child processes left' % name, dict(operation=name), kind='child' + name)
            run.check(os.listdir(t) == files, '%s: temporary files left: %s' % (name, os.listdir(t)), dict(operation=name), kind='tmp' + name)


def fill():
    """Caches of fixed size reach their size."""
    from wcxf.util import qcd
    for i in range(80):
        s = 2 + .37 * i
        qcd.alpha_s(s, 5, .118), qcd.m_b(4.2, s, 5, .118), qcd.m_c(1.3, s, 4, .118), qcd.m_s(.1, s, 3, .118)


def growth(run, w, rng, ops):
    """Memory after a series of calls with different data, compared with before."""
    fill()
    started = not tracemalloc.is_tracing()
    if started:
        tracemalloc.start(1)
    try:
        for name, fs in ops.items():
            def series(fs):
                for f in fs:
                    f()
                    if len(fs) < 100:
                        gc.collect()
            ok, _ = run.guard(lambda: series(fs[:2]), name, name)
            if not ok:
                continue
            rest = fs[2:]
            gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            ok, _ = run.guard(lambda: series(rest), name, name)
            gc.collect()
            b = tracemalloc.get_traced_memory()[0]
            per = (b - a) / len(rest)
            run.observe('series', key=name, sample=dict(series=name, calls=len(rest), bytes_per_call=round(per)))
            run.counts['largest growth per call'] = max(run.counts['largest growth per call'], int(per))
            run.check(b - a < BASE + (LONG if name == 'many calls' else LIMIT) * len(rest), '%s: memory grows by %d bytes with each call' % (name, per), dict(operation=name, calls=len(rest)), kind='grow' + name)
    finally:
        if started:
            tracemalloc.stop()


def running(run, rng):
    """Scans over many scales and inputs: caches may be filled, but not grow with the scan."""
    from wcxf.util import qcd
    calls = {'alpha_s': lambda x: qcd.alpha_s(2 + 90 * x, 5, .117 + .002 * x), 'm_b': lambda x: qcd.m_b(4.1 + .2 * x, 3 + 90 * x, 5, .118),
             'm_c': lambda x: qcd.m_c(1.2 + .1 * x, 1.5 + 2 * x, 4, .118), 'm_s': lambda x: qcd.m_s(.09 + .01 * x, 2 + x, 3, .118)}
    n = run.n(1500, 10000)
    for name, f in calls.items():
        for i in range(600):
            f(rng.random())
        started = not tracemalloc.is_tracing()
        if started:
            tracemalloc.start(1)
        try:
            xs = [rng.random() for i in range(n)]
            gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            for x in xs:
                f(x)
            gc.collect()
            b = tracemalloc.get_traced_memory()[0]
        finally:
            if started:
                tracemalloc.stop()
        run.observe('series', key='scan ' + name, sample=dict(series='scan of ' + name, calls=n, bytes_per_call=round((b - a) / n, 1)))
        # an entry of a cache takes 200 bytes or more; a bounded cache that was full before does not grow
        run.check(b - a < BASE + 60 * n, 'scan of %s over %d values: memory grows by %d bytes with each call' % (name, n, (b - a) / n), dict(operation=name, calls=n), kind='scan' + name)


def tiny(run, w, rng):
    """Very many calls with very small files: even a note of a few bytes per call adds up."""
    from wcxf.converters import yamljson, eos
    w.EFT('tiny', {'s': {}})
    w.EFT('tiny2', {'s': {}})
    w.Basis('tiny', 'a', {'s': {'x': None, 'y': {'real': True}}})
    w.Basis('tiny', 'b', {'s': {'x': None}})
    w.Translator('tiny', 'a', 'b', lambda C, scale, parameters: {k: 2 * v for k, v in C.items()})
    w.Matcher('tiny', 'a', 'tiny2', 'b', lambda C, scale, parameters: {k: 2 * v for k, v in C.items()})

    def wc(x, basis='a', name='x'):
        return w.WC('tiny', basis, 2 + 100 * x, {name: x, 'y': {'Re': x, 'Im': x / 2}})

    def fails(f):
        try:
            f()
        except Exception:
            pass

    def define(x):
        n = 'basis %r' % x
        w.Basis('tiny', n, {'s': {'c': None}}, parent='a')
        str(w.Basis['tiny', n])
        del w.Basis['tiny', n]

    def rule(x):
        n = 'basis %r' % x
        w.translator('tiny', 'a', n)(lambda C, scale, parameters: dict(C))
        wc(x).translate(n)
        del w.Translator['tiny', 'a', n]
    sm = {'Re{x}': {'central': 1., 'min': 1., 'max': 1.}, 'Im{x}': {'central': 0., 'min': 0., 'max': 0.}}
    fk = sorted(gen.keys_of('WET', 'FlavorKit'))
    calls = {
        'dumping and loading JSON': lambda x: w.WC.load(wc(x).dump()),
        'dumping YAML': lambda x: wc(x).dump(fmt='yaml'),
        'loading': lambda x: w.WC.load(io.StringIO('{"eft": "tiny", "basis": "a", "scale": %r, "values": {"x": %r}}' % (x, x))),
        'loading what is no file': lambda x: fails(lambda: w.WC.load('{"a": %r' % x)),
        'numbers': lambda x: w.WC.dict2values(wc(x).dict),
        'printing': lambda x: str(wc(x)) + repr(wc(x)),
        'printing a basis': lambda x: str(w.Basis['tiny', 'a']),
        'validation': lambda x: wc(x).validate(),
        'failing validation': lambda x: fails(wc(x, name='n %r' % x).validate),
        'failing lookup': lambda x: fails(lambda: w.Basis['tiny', 'n %r' % x]),
        'lists of definitions': lambda x: (w.EFT['tiny'].known_bases, w.EFT['tiny'].known_translators, w.Basis['tiny', 'a'].known_translators, w.Basis['tiny', 'a'].all_wcs),
        'translation': lambda x: wc(x).translate('b', {'p': x}).dict,
        'matching': lambda x: wc(x).match('tiny2', 'b', {'p': x}).dict,
        'failing translation': lambda x: fails(lambda: wc(x).translate('n %r' % x)),
        'failing matching': lambda x: fails(lambda: wc(x).match('tiny2', 'n %r' % x)),
        'defining bases': define,
        'failing definition': lambda x: fails(lambda: w.Basis('tiny', 'n', {}, parent='p %r' % x)),
        'defining rules': rule,
        'conversion to YAML': lambda x: yamljson.convert_yaml(io.StringIO('{"a": %r}' % x), io.StringIO()),
        'conversion to JSON': lambda x: yamljson.convert_json(io.StringIO('a: %r' % x), io.StringIO()),
        'EOS conversion': lambda x: eos.wcxf2eos(wc(x), sm),
        'fewer flavours': lambda x: w.WC('WET-4', 'flavio', 2 + x, {'CVL_cbenue': x}).match('WET-3', 'flavio'),
        'FlavorKit': lambda x: w.WC('WET', 'FlavorKit', 5., {fk[int(x * len(fk))]: x}).translate('JMS', {'m_e': x}),
        'Warsaw up': lambda x: w.WC('SMEFT', 'Warsaw', 1000 * x, {'phiq1_12': x}).translate('Warsaw up', {'gamma': x}),
    }
    slow = {'FlavorKit', 'Warsaw up', 'fewer flavours'}
    started = not tracemalloc.is_tracing()
    if started:
        tracemalloc.start(1)
    try:
        for name, f in calls.items():
            n = run.n(300, 2000) if name in slow else run.n(1000, 6000)

            def series(m):
                xs = [rng.random() for i in range(m)]
                gc.collect()
                a = tracemalloc.get_traced_memory()[0]
                for x in xs:
                    f(x)
                x = None
                gc.collect()
                return tracemalloc.get_traced_memory()[0] - a
            # what is bounded stops growing: only what grows in every series counts
            ok, _ = run.guard(lambda: series(200), name, name)
            if not ok:
                continue
            grew = []
            for j in range(5):
                ok, d = run.guard(lambda: series(n << j), name, name)
                if not ok:
                    break
                grew.append(round(d / (n << j), 1))
                if d < 7 * (n << j) - 500:
                    break
            run.observe('tiny', key=name, sample=dict(series=name, calls=n, bytes_per_call=grew))
            run.counts['tiny calls'] += n * (2**len(grew) - 1)
            run.check(not grew or len(grew) < 5 or min(grew) < 7, '%s: memory grows by %s bytes with each call' % (name, grew), dict(operation=name, calls=n), kind='tiny' + name)
    finally:
        if started:
            tracemalloc.stop()
        for reg, k in ((w.Translator, ('tiny', 'a', 'b')), (w.Matcher, ('tiny', 'a', 'tiny2', 'b')), (w.Basis, ('tiny', 'a')), (w.Basis, ('tiny', 'b')), (w.EFT, 'tiny'), (w.EFT, 'tiny2')):
            try:
                del reg[k]
            except KeyError:
                pass


def definitions(run, w, rng):
    """Deleted, replaced and cleared definitions are released."""
    for i in range(run.n(80, 400)):
        kind = rng.choice(('EFT', 'Basis', 'child', 'Translator', 'Matcher'))
        how = rng.choice(('delete', 'replace'))
        e, b = 'resource eft', 'resource basis'

        def make():
            if kind == 'EFT':
                return w.EFT, e, w.EFT(e, {'s': {}})
            if kind in ('Basis', 'child'):
                if kind == 'child':
                    w.Basis(e, 'parent of it', {'t': {'p': None}})
                o = w.Basis(e, b, {'s': {'a': None}}, **({'parent': 'parent of it'} if kind == 'child' else {}))
                o.all_wcs
                str(o)
                return w.Basis, (e, b), o
            fn = lambda C, scale, parameters: dict(C)
            if kind == 'Translator':
                return w.Translator, (e, b, 'to'), w.Translator(e, b, 'to', fn)
            return w.Matcher, (e, b, 'e2', 'b2'), w.Matcher(e, b, 'e2', 'b2', fn)
        reg, name, o = make()
        if kind == 'Translator':
            w.WC(e, b, 5., {'a': 1.}).translate('to')
        if kind == 'Matcher':
            w.WC(e, b, 5., {'a': 1.}).match('e2', 'b2')
        r = weakref.ref(o)
        o = None
        if how == 'replace':
            make()
        else:
            del reg[name]
        gc.collect()
        run.observe('definition', key=(kind, how, i))
        run.check(r() is None, '%s still referenced after its definition was %sd' % (kind, how), kind='def' + kind)
        if how == 'replace':
            del reg[name]
        if kind == 'child':
            del w.Basis[e, 'parent of it']
