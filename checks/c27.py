"""C27: printed representations."""
import copy
import re
from vlib import env, doc, gen, monitor


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'tables of the printed text parsed back and compared with the content of the object'
    for i in range(run.n(600, 8000)):
        coefficients(run, w, rng, i)
        basis(run, w, rng, i)
    for (e, b) in (('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET', 'flavio'), ('WET', 'EOS'), ('WET-3', 'Bern')):
        check_basis(run, w.Basis[e, b], e, b, None)
    # objects that come out of a translation
    for r in (('WET', 'JMS', 'flavio'), ('SMEFT', 'Warsaw', 'Warsaw mass'), ('WET', 'flavio', 'Bern')):
        for i in range(run.n(6, 60)):
            ok, wc = run.guard(lambda: gen.apply(gen.make(w, rng, r, gen.route_input(rng, r), 91.), r), 'translation', r)
            if ok:
                check_wc(run, wc)
    # large files
    for (e, b) in (('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET', 'flavio')):
        keys = gen.keys_of(e, b)
        for i in range(run.n(3, 12)):
            check_wc(run, w.WC(e, b, gen.scale(rng), gen.values(rng, gen.coeffs(rng, keys, 'mixed', -20, 3))))
    big = {'s%d' % i: {'c%d_%d' % (i, j): doc.meta(rng) for j in range(n)} for i, n in enumerate((150, 0, 400, 1))}
    for s in big.values():
        for m in s.values():
            if m and 'tex' in m:
                m['tex'] = 'O_{1}'
    check_basis(run, w.Basis('big eft', 'big', big), 'big eft', 'big', None)
    del w.Basis['big eft', 'big']
    run.floor(wc=500, basis=500, rows=2000, edited=120)


def clean(rng):
    """A one-line name usable in a table cell."""
    while True:
        s = doc.word(rng)
        if s and not re.search(r'[|`\n\t]', s) and s == s.strip():
            return s


def coefficients(run, w, rng, i):
    vals = {}
    for k in range(rng.choice((0, 1, 3, 12, 40))):
        n = clean(rng) + ('_%d' % k if rng.random() < .5 else '')
        x = doc.num(rng)
        vals[n] = rng.choice((x, {'Re': x, 'Im': doc.num(rng)}, {'Im': x}, {'Re': x}, repr(float(x)), 0, {'Re': 0, 'Im': 0}))
    wc = w.WC(clean(rng), clean(rng), rng.choice((91.1876, 4, 1000., '160.', 1e-3, 1e16, 2.5e-7, 1, 1.0, rng.uniform(1, 1e4))), vals, **doc.extras(rng, ('_dict',)))
    if rng.random() < .3:
        for u in rng.sample((lambda: wc.dict, lambda: repr(wc), lambda: wc.dump(fmt='json'), lambda: wc.dump(fmt='yaml')), 2):
            u()
        run.counts['used before'] += 1
    check_wc(run, wc)
    if rng.random() < .3:
        # relabelled and printed again
        how = rng.choice(('eft', 'basis', 'scale'))
        setattr(wc, how, 77.25 if how == 'scale' else clean(rng) + ' new')
        run.observe('edited', key=('wc', how, i))
        check_wc(run, wc)


def number(s):
    try:
        return complex(s.strip())
    except ValueError:
        return None


def check_wc(run, wc):
    before = copy.deepcopy(doc.public(wc))
    ok, s = run.guard(lambda: str(wc), 'printing coefficients', lambda: dict(values=wc.values))
    if not ok:
        return
    wit = lambda: dict(values=wc.values, eft=wc.eft, basis=wc.basis, scale=wc.scale, printed=s[:3000])
    run.observe('wc', key=(wc.eft, wc.basis, len(wc.values), run.evaluations), sample=dict(printed=s[:400]))
    run.check(doc.same(doc.public(wc), before), 'printing changes the file object', wit, kind='wcmod')
    run.check(str(wc) == s, 'printing twice gives different text', wit, kind='wctwice')
    head = s.split('|')[0]
    for k, v in (('EFT', wc.eft), ('Basis', wc.basis)):
        ln = [l for l in head.splitlines() if l.lstrip('*#- ').startswith(k)]
        run.check(any(v in l for l in ln), 'printed text does not state the %s %r' % (k, v), wit, kind='wc' + k)
    ln = [l for l in head.splitlines() if l.lstrip('*#- ').startswith('Scale')]
    run.check(any(float(x) == float(wc.scale) for l in ln for x in re.findall(r'[-+]?\d[\d.]*(?:e[-+]?\d+)?', l)), 'printed text does not state the scale %r' % wc.scale, wit, kind='wcscale')
    short(run, wc, (wc.eft, wc.basis), wit)
    rows = table(s, 2)
    got = {}
    for name, val in rows:
        if name in got:
            run.violate('coefficient %r printed twice' % name, wit, kind='wcdup')
        got[name] = val
    exp = {k: monitor.read(v) for k, v in wc.values.items()}
    run.counts['rows'] += len(exp)
    run.check(set(got) == set(exp), 'printed coefficients: missing %s, superfluous %s' % (sorted(set(exp) - set(got))[:5], sorted(set(got) - set(exp))[:5]), wit, kind='wcnames')
    for k in exp:
        if k in got:
            x = number(got[k])
            run.check(x is not None and x == complex(exp[k]), 'coefficient %r printed as %r, is %r' % (k, got[k], exp[k]), wit, kind='wcvalue')


def short(run, o, names, wit):
    """The one-line and the notebook form name what they show."""
    for what, f in (('repr', lambda: repr(o)), ('notebook form', lambda: o._repr_markdown_())):
        if what != 'repr' and not hasattr(o, '_repr_markdown_'):
            continue
        ok, r = run.guard(f, what, wit)
        if ok:
            run.counts['short forms'] += 1
            run.check(all(n in r for n in names), '%s %r does not name %s' % (what, r[:100], names), wit, kind=what)


def table(s, n):
    """Data rows of the tables with n columns: first cell a name in backticks."""
    out = []
    for l in s.splitlines():
        m = re.match(r'^\|\s*`([^`]*)`\s*\|(.*)\|\s*$', l)
        if m:
            out.append((m.group(1),) + tuple(x.strip() for x in m.group(2).rsplit('|', n - 2)))
    return out


def basis(run, w, rng, i):
    sec = {}
    for s in range(rng.randint(0, 4)):
        sn = clean(rng) + ('%d' % s)
        sec[sn] = {}
        for k in range(rng.choice((0, 1, 3, 8))):
            m = doc.meta(rng)
            if m and 'tex' in m:
                m['tex'] = re.sub(r'[|\n\t$]', ' ', m['tex'])
            sec[sn][clean(rng) + '_%d' % k] = m
    kw = {}
    r = rng.random()
    if r < .4:
        kw['metadata'] = {'description': 'Description number %d: %s' % (i, re.sub(r'[|`\n\t#]', ' ', doc.text(rng)))}
        if r < .1:
            kw['metadata']['author'] = 'x'
    elif r < .6:
        kw['metadata'] = {'author': 'someone'}
    elif r < .75:
        kw['metadata'] = rng.choice((None, {}, {'description': None}, {'description': ''}))
    e, b = clean(rng), clean(rng)
    par = None
    if rng.random() < .3 and sec:
        w.Basis(e, b + ' parent', {'from parent': {'p_1': None, 'p_2': {'tex': 'P', 'real': True}}, **{k: {'old': None} for k in list(sec)[:1]}})
        kw['parent'] = b + ' parent'
    ok, o = run.guard(lambda: w.Basis(e, b, copy.deepcopy(sec), **kw), 'definition', dict(sectors=sec))
    if ok:
        if rng.random() < .3:
            # used before it is printed
            for u in rng.sample((lambda: o.all_wcs, lambda: repr(o), lambda: o.dump(fmt='json'), lambda: o.dump(fmt='yaml')), 2):
                u()
            run.counts['used before'] += 1
        check_basis(run, o, e, b, (kw.get('metadata') or {}).get('description'))
        del w.Basis[e, b]
        if rng.random() < .3:
            # edited and printed again
            how = rng.choice(('coefficient', 'meta', 'sector', 'replace', 'metadata', 'names'))
            desc = (kw.get('metadata') or {}).get('description')
            if how == 'coefficient' and o.sectors:
                s = rng.choice(list(o.sectors))
                o.sectors[s] = dict(o.sectors[s], added={'tex': 'new', 'real': True})
            elif how == 'meta' and any(o.sectors.values()):
                s = rng.choice([s for s in o.sectors if o.sectors[s]])
                o.sectors[s][rng.choice(list(o.sectors[s]))] = {'tex': 'changed', 'real': rng.random() < .5}
            elif how == 'sector':
                o.sectors['another sector'] = {'x_1': None}
            elif how == 'replace':
                o.sectors = {'only sector': {'y_1': {'tex': 'Y'}, 'y_2': {'real': True}}}
            elif how == 'metadata':
                desc = 'Another description %d' % i
                o.metadata = {'description': desc}
            elif how == 'names':
                e, b = 'renamed eft', 'renamed basis'
                o.eft, o.basis = e, b
            run.observe('edited', key=('basis', how, i))
            check_basis(run, o, e, b, desc)


def check_basis(run, o, e, b, desc):
    before = copy.deepcopy(doc.public(o))
    ok, s = run.guard(lambda: str(o), 'printing a basis', lambda: dict(sectors=o.sectors))
    if not ok:
        return
    wit = lambda: dict(eft=e, basis=b, sectors=o.sectors, description=desc, printed=s[:3000])
    run.observe('basis', key=(e, b, run.evaluations), sample=dict(printed=s[:200]))
    run.check(doc.same(doc.public(o), before), 'printing changes the basis', wit, kind='bmod')
    run.check(str(o) == s, 'printing twice gives different text', wit, kind='btwice')
    head = s.strip().splitlines()[0]
    run.check(b in head and e in head, 'heading %r does not name the basis %r of %r' % (head, b, e), wit, kind='bhead')
    short(run, o, (o.eft, o.basis), wit)
    if desc is not None:
        run.check(desc.strip() in s, 'description not printed', wit, kind='bdesc')
    # per sector
    got, cur = {}, None
    for l in s.splitlines():
        m = re.match(r'^###\s*`(.*)`\s*$', l)
        if m:
            cur = m.group(1)
            if cur in got:
                run.violate('sector %r printed twice' % cur, wit, kind='bsdup')
            got[cur] = []
        elif cur is not None:
            got[cur] += table(l, 3)
    run.check(set(got) == set(o.sectors), 'printed sectors: missing %s, superfluous %s' % (sorted(set(o.sectors) - set(got))[:5], sorted(set(got) - set(o.sectors))[:5]), wit, kind='bsec')
    for sn, cs in o.sectors.items():
        if sn not in got:
            continue
        run.counts['rows'] += len(cs)
        names = [r[0] for r in got[sn]]
        run.check(sorted(names) == sorted(cs), 'sector %r prints %s, holds %s' % (sn, names[:8], list(cs)[:8]), wit, kind='bnames')
        for r in got[sn]:
            if r[0] not in cs:
                continue
            m = cs[r[0]] or {}
            run.check(r[1].strip('$ ') == m.get('tex', '').strip('$ '), 'operator of %r printed as %r, is %r' % (r[0], r[1], m.get('tex', '')), wit, kind='btex')
            run.check(r[2] == ('R' if m.get('real') else 'C'), 'type of %r printed as %r' % (r[0], r[2]), wit, kind='btype')
