"""C01: dump / load round trips."""
import copy
import io
import json
import yaml
from vlib import env, doc, gen


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'reloaded object and independently parsed text compared with the dumped content, bit-exact'

    def wcobj(i):
        if i % 3 == 0:
            C = gen.coeffs(rng, gen.keys_of('SMEFT', 'Warsaw'), rng.choice(('sparse', 'few', 'single')), -30, 30)
            vals = gen.values(rng, C)
        else:
            vals = {k: rng.choice((doc.num(rng), {'Re': doc.num(rng), 'Im': doc.num(rng)}, {'Re': doc.num(rng)}, {'Im': doc.num(rng)}, str(doc.num(rng))))
                    for k in doc.names(rng, rng.randint(0, 8))}
        if rng.random() < .08:
            vals[rng.choice(('', ' ', '0', 'values'))] = doc.num(rng)
        sc = rng.choice((91.1876, 4.8, 1000, 1e3, 0.1 + 0.2, rng.uniform(1, 1e4), '160.0', '80.385'))
        if i % 33 == 0:
            # a large file: every coefficient of a basis
            vals = gen.values(rng, gen.coeffs(rng, gen.keys_of(*rng.choice((('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET', 'flavio')))), 'mixed', -30, 30))
        if vals and rng.random() < .2:
            # two coefficients holding the same object, infinite and zero parts
            k = rng.choice(sorted(vals))
            vals['shared'] = vals[k]
            vals['inf'] = rng.choice((float('inf'), {'Re': float('-inf'), 'Im': 0.}, {'Re': -0., 'Im': 0}))
        return w.WC, dict(eft=doc.word(rng), basis=doc.word(rng), scale=sc, values=vals,
                          **doc.extras(rng))

    def basisobj(i):
        d = dict(eft='E%d' % (i % 7), basis='B%d %s' % (i, doc.word(rng)), sectors=doc.sectors(rng), **doc.extras(rng))
        if i % 4 == 1 and state:
            par = rng.choice(state)
            d['eft'], d['parent'] = par
        state.append((d['eft'], d['basis']))
        return w.Basis, d

    def eftobj(i):
        return w.EFT, dict(eft='E%d %s' % (i, doc.word(rng)), sectors={k: doc.data(rng, 2) for k in doc.names(rng, rng.randint(0, 5)) + rng.choice(([],) * 9 + ([''],))}, **doc.extras(rng))

    state = []
    for i in range(run.n(400, 6000)):
        cls, d = (wcobj, basisobj, eftobj)[i % 3](i)
        if rng.random() < .1 and 'metadata' in d:
            d['metadata']['shared'] = d['metadata']['extra']        # the same object twice
        if rng.random() < .15:
            d['odd'] = {doc.odd(rng): doc.odd(rng), 'x': [doc.odd(rng)]}
            run.counts['odd characters'] += 1
        given = copy.deepcopy(d)
        ok, o = run.guard(lambda: cls(**d), 'constructing ' + cls.__name__, d)
        if not ok:
            continue
        if cls is w.WC and rng.random() < .5:
            run.guard(lambda: o.dict, 'dict', d)
        before = copy.deepcopy(doc.public(o))
        # the object holds what it was given (children: own sectors at least)
        for k, v in given.items():
            if k == 'scale':
                v = float(v)
            if k == 'sectors' and 'parent' in given:
                good = all(doc.same(before['sectors'].get(s), c) for s, c in v.items())
            else:
                good = k in before and doc.same(before[k], v)
            run.check(good, '%s does not hold the given %s' % (cls.__name__, k), given, kind='ctor' + k)
        for turn, fmt in enumerate(rng.sample(('json', 'yaml', 'JSON', 'Yaml'), 4)):
            if turn == 2 and rng.random() < .5:
                # the content is changed between two dumps
                change(rng, o)
                before = copy.deepcopy(doc.public(o))
                given = dict(given, changed_to=before)
                run.observe('changed', key=i)
            opts = {}
            odd = 'odd' in before
            if fmt.lower() == 'json':
                opts = rng.choice(({}, {}, {'indent': None}, {'indent': 4}, {'indent': '\t'}, {'sort_keys': True}, {'ensure_ascii': False}, {'ensure_ascii': False}))
            elif rng.random() < .4 and not odd:
                opts = rng.choice(({'allow_unicode': True}, {'width': 1000}, {'indent': 4}, {'sort_keys': False}, {'default_flow_style': None}))
            stream = io.StringIO() if rng.random() < .5 else None
            pre = ''
            if stream is not None and rng.random() < .3:
                pre = 'text already in the stream\n'
                stream.write(pre)
            ok, s = run.guard(lambda: o.dump(stream, fmt=fmt, **opts) if stream is not None or rng.random() < .5 else o.dump(fmt=fmt, **opts),
                              'dump as ' + fmt, given)
            if not ok:
                continue
            if stream is not None:
                s = stream.getvalue()
                run.check(s.startswith(pre), 'dump overwrites what was in the stream', given, kind='stream')
                s = s[len(pre):]
            wit = lambda: dict(given=given, fmt=fmt, options=opts, text=s)
            run.observe('dump', key=(cls.__name__, fmt, i), sample=dict(cls=cls.__name__, fmt=fmt, size=len(s or '')))
            run.check(doc.same(doc.public(o), before), 'dump changes the object', wit)
            try:
                p = json.loads(s) if fmt.lower() == 'json' else yaml.safe_load(s)
            except Exception as e:
                run.violate('dumped %s text of %s cannot be parsed: %r' % (fmt, cls.__name__, e), wit(), kind='parse' + fmt.lower())
                continue
            run.check(doc.same(p, before), 'dumped %s text of %s does not hold the content' % (fmt, cls.__name__), wit, kind='text' + fmt.lower())
            src = io.StringIO(s) if rng.random() < .5 else s
            ok, b = run.guard(lambda: cls.load(src), 'loading dumped %s text' % fmt, wit)
            if ok:
                run.observe('load', key=(cls.__name__, fmt, i))
                run.check(doc.same(doc.public(b), before), 'reloading the dumped %s of %s changes the content' % (fmt, cls.__name__),
                          lambda: dict(given=given, text=s, loaded=doc.public(b)), kind='load' + fmt.lower())
                run.check(type(b) is cls, 'load returns %s' % type(b))
                # second generation through the other format
                other = 'yaml' if fmt.lower() == 'json' else 'json'
                ok, c = run.guard(lambda: cls.load(b.dump(fmt=other)), 'second round trip', wit)
                if ok:
                    run.check(doc.same(doc.public(c), before), 'round trip through %s then %s changes the content' % (fmt, other), wit, kind='second')
        if i % 10 == 0:
            for bad in ('xml', '', 'jsonn'):
                try:
                    o.dump(fmt=bad)
                    run.violate('dump accepts the unknown format %r' % bad)
                except ValueError:
                    run.observe('badformat', key=(bad, i))
                except Exception as e:
                    run.violate('dump with unknown format raises %r' % e, kind='badformat')
    files(run, w, rng)
    encodings(run, w, rng)
    large(run, w, rng)
    results(run, w, rng)
    run.floor(dump=1200, load=1200, changed=40, file=30, result=20, encoding=100, large=6)


def change(rng, o):
    r = rng.random()
    if r < .3:
        o.added_later = doc.data(rng, 2)
    elif r < .7 and isinstance(getattr(o, 'values', None), dict):
        o.values['added_%d' % rng.randint(0, 9)] = doc.num(rng)
        if rng.random() < .5:
            o.values.pop(rng.choice(sorted(o.values)))
    elif r < .85 and hasattr(o, 'scale'):
        o.scale = rng.uniform(1, 1000)
    else:
        o.sectors = dict(getattr(o, 'sectors', {}), **{'new sector': {'new_1': None}}) if hasattr(o, 'sectors') else None
        if o.sectors is None:
            del o.sectors


def files(run, w, rng):
    """real files, several objects in turn"""
    import os
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='verif_c01_')
    try:
        for i in range(run.n(40, 400)):
            C = gen.coeffs(rng, gen.keys_of('WET', 'flavio'), rng.choice(gen.STYLES), -30, 30)
            o = w.WC('WET', 'flavio', rng.uniform(1, 300), gen.values(rng, C), **doc.extras(rng))
            before = copy.deepcopy(doc.public(o))
            fn = os.path.join(tmp, 'f%d' % (i % 3))
            fmt = rng.choice(('json', 'yaml'))
            with open(fn, 'w', encoding='utf-8') as f:
                ok, _ = run.guard(lambda: o.dump(f, fmt=fmt), 'dump to a file', before)
            if not ok:
                continue
            with open(fn, encoding='utf-8') as f:
                ok, b = run.guard(lambda: w.WC.load(f), 'load from a file', before)
            run.observe('file', key=i)
            run.check(ok and doc.same(doc.public(b), before), 'writing to a %s file and loading it changes the content' % fmt,
                      dict(before=before, after=ok and doc.public(b)), kind='file' + fmt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def encodings(run, w, rng):
    """streams that cannot represent every character: the default text needs none of them"""
    for i in range(run.n(60, 600)):
        d = dict(eft=doc.word(rng), basis='é B%d' % i, scale=80., values={k: doc.num(rng) for k in doc.names(rng, 4)}, metadata={'author': 'Łukasz 中 \U0001d4ae', 'x': doc.word(rng)})
        cls = w.WC
        if i % 3:
            cls = (w.EFT, w.Basis)[i % 3 - 1]
            d = {k: v for k, v in d.items() if k in ('eft', 'basis', 'metadata')}
            if cls is w.EFT:
                d.pop('basis')
            d['sectors'] = doc.sectors(rng) if cls is w.Basis else {'σ': None}
        ok, o = run.guard(lambda: cls(**copy.deepcopy(d)), 'constructing', d)
        if not ok:
            continue
        before = copy.deepcopy(doc.public(o))
        for enc in ('ascii', 'latin-1', 'cp1252', 'utf-16', 'utf-8'):
            fmt = rng.choice(('json', 'yaml'))
            st = io.TextIOWrapper(io.BytesIO(), encoding=enc, newline='')
            wit = lambda: dict(given=d, encoding=enc, fmt=fmt)
            ok, _ = run.guard(lambda: (o.dump(st, fmt=fmt), st.flush()), 'dump to a stream in %s' % enc, wit)
            if not ok:
                continue
            st.seek(0)
            ok, b = run.guard(lambda: cls.load(st), 'load from a stream in %s' % enc, wit)
            run.observe('encoding', key=(i, enc, fmt))
            run.check(ok and doc.same(doc.public(b), before), 'writing %s to a stream in %s and loading it changes the content' % (fmt, enc), wit, kind='enc' + fmt)


def large(run, w, rng):
    for i in range(run.n(6, 30)):
        vals = {'c%d' % k: {'Re': rng.gauss(0, 1), 'Im': rng.gauss(0, 1)} for k in range((50000, 10)[i % 2])}
        d = dict(eft='WET', basis='JMS', scale=80., values=vals, metadata={'x': 'x' * (10, 3000000)[i % 2], 'last': 'end'})
        o = w.WC(**copy.deepcopy(d))
        fmt = 'yaml' if i % 2 and i % 4 == 1 else 'json'
        ok, s = run.guard(lambda: o.dump(fmt=fmt), 'dump of a large file', i)
        if not ok:
            continue
        for src in (s, io.StringIO(s)):
            ok, b = run.guard(lambda: w.WC.load(src), 'load of a large file', i)
            run.observe('large', key=(i, type(src)), sample=dict(size=len(s)))
            run.check(ok and doc.same(doc.public(b), d), 'dumping (%s) and loading a file of %d characters changes it' % (fmt, len(s)), None, kind='large')


def results(run, w, rng):
    """results of translations and matchings are file objects like any other"""
    for i in range(run.n(30, 300)):
        r = rng.choice([r for r in gen.ROUTES if r not in gen.SMEFT_MATCH])
        C = gen.consistent(r, gen.route_input(rng, r))
        ok, o = run.guard(lambda: gen.apply(gen.make(w, rng, r, C, gen.scale(rng)), r), gen.rname(r), C)
        if not ok:
            continue
        before = copy.deepcopy(doc.public(o))
        for fmt in ('json', 'yaml'):
            ok, b = run.guard(lambda: w.WC.load(o.dump(fmt=fmt)), 'round trip of a result', before)
            run.observe('result', key=(i, fmt))
            run.check(ok and doc.same(doc.public(b), before) and b.dict == o.dict, 'dumping (%s) and loading a result of %s changes it' % (fmt, gen.rname(r)),
                      dict(before=before), kind='result' + fmt)
