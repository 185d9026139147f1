"""C24: EOS parameter files."""
import copy
import json
import os
import re
import shutil
import tempfile
import yaml
from vlib import core, env, gen, monitor, cmd, doc

QU = ('central', 'min', 'max')


def corresponding(name):
    """EOS parameter name -> (coefficient names that must agree, part)."""
    m = re.search(r'(Re|Im)\{([^}]*)\}', name)
    part = m.group(1) if m else 'Re'
    base = name[:m.start()] + m.group(2) + name[m.end():] if m else name
    if 'lnu' in base:
        return (base.replace('lnu', 'enue'), base.replace('lnu', 'munumu')), part
    return (base,), part


def expected(C, sm):
    """None if the charged-current coefficients are not flavour universal."""
    out = {}
    for name, central in sm.items():
        keys, part = corresponding(name)
        vals = [complex(C.get(k, 0)) for k in keys]
        if any(v != vals[0] for v in vals):
            return None
        out[name] = central + (vals[0].real if part == 'Re' else vals[0].imag)
    return out


def close(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-13 * (abs(a) + abs(b)) + 1e-300


def judge(run, got, exp, wit, what):
    run.observe('output', key=(what, len(exp), repr(sorted(exp.items()))[:200]), sample=dict(what=what, n=len(exp)))
    if not run.check(isinstance(got, dict), '%s: no dictionary' % what, wit, kind='type'):
        return
    run.check(set(got) == set(exp), '%s: parameters missing %s, superfluous %s' % (what, sorted(set(exp) - set(got))[:5], sorted(set(got) - set(exp))[:5]),
              wit, kind='names' + what)
    for k in exp:
        if k not in got:
            continue
        v = got[k]
        run.counts['parameters'] += 1
        if not run.check(isinstance(v, dict) and set(v) == set(QU), '%s: %s has entries %s' % (what, k, v), wit, kind='entries' + what):
            continue
        for q in QU:
            run.check(close(v[q], exp[k]), '%s: %s of %s is %r, expected %r' % (what, q, k, v[q], exp[k]), wit, kind='value' + what + corresponding(k)[1] + q)


def smnames(rng, keys):
    """EOS parameters for some coefficients of the basis."""
    names = {}
    for k in keys:
        if 'nu' in k:
            k = k.replace('munumu', 'lnu').replace('enue', 'lnu')
        pre, op = k.split('::')
        if 'lnu' in k or rng.random() < .7:
            for p in rng.choice((('Re', 'Im'),) * 3 + (('Im', 'Re'), ('Re',), ('Im',))):
                names['%s::%s{%s}' % (pre, p, op)] = num(rng)
        else:
            names[k] = num(rng)
    # names that are no coefficient of the basis, but resemble one
    for k in rng.sample(sorted(keys), min(len(keys), rng.choice((0, 0, 2, 5)))):
        if 'nu' in k:
            continue
        pre, op = k.split('::')
        n = rng.choice(('%s::%s' % (pre, op.upper()), '%s::%s' % (pre.upper(), op), '%s::Re{%sx}' % (pre, op), '%s::Im{x%s}' % (pre, op), 'x%s::%s' % (pre, op),
                        '%s::%s_' % (pre, op), '%s::Re{%s}' % (pre, op.upper()), '%s:: %s' % (pre, op), '%s:%s' % (pre, op), op, pre, '%s::re{%s}' % (pre, op), '%s::|%s|' % (pre, op),
                        '%s::Arg{%s}' % (pre, op), '%s::%s%s' % (pre, op, op)))
        if corresponding(n)[0][0] not in gen.keys_of('WET', 'EOS') and not re.search(r'(Re|Im)\{', n.replace('::Re{', '', 1).replace('::Im{', '', 1)):
            names[n] = num(rng)
    return names


def num(rng):
    return rng.choice((0, 0., 1., -1, rng.gauss(0, 1), rng.gauss(0, 1) * 10.**rng.randint(-8, 8), round(rng.gauss(0, 3), 6)))


def entry(rng, c):
    d = {'central': c}
    if rng.random() < .8:
        d['min'] = c - rng.choice((0, 1, .5))
        d['max'] = c + rng.choice((0, 1, .25))
    if rng.random() < .25:
        d.update(rng.choice(({'latex': '$x$', 'unit': '1'}, {'comment': 'é', 'value': 7.}, {'latex': 'y'}, {'range': [-1, 1]})))
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def emit(rng, d):
    if rng.random() < .3:
        return json.dumps(d, indent=1)
    return yaml.safe_dump(d, default_flow_style=False, sort_keys=rng.random() < .5)


def directory(rng, path, sm):
    """Parameter directory: relevant coefficients spread over files, plus files to ignore."""
    names = list(sm)
    rng.shuffle(names)
    nf = rng.randint(1, 4)
    for i in range(nf):
        d = {n: entry(rng, sm[n]) for n in names[i::nf]}
        meta = {'wcxf-relevant': True}
        if rng.random() < .5:
            meta['description'] = doc.text(rng)
        items = [('@metadata@', meta)] + list(d.items())
        if rng.random() < .3:
            rng.shuffle(items)
        cmd.write(os.path.join(path, 'wc%d.yaml' % i), emit(rng, dict(items)))
    other = {'mass::b(MSbar)': entry(rng, 4.18), 'b->s::Re{c7}': entry(rng, 99.), 'QCD::alpha_s(MZ)': entry(rng, .118), 'b->smumu::Re{c9}': entry(rng, 77.)}
    for i, meta in enumerate((None, {}, {'wcxf-relevant': False}, {'description': 'x'}, {'wcxf-relevant': 0})):
        if rng.random() < .5:
            d = dict(other) if meta is None else dict([('@metadata@', meta)] + list(other.items()))
            cmd.write(os.path.join(path, rng.choice(('a', 'z')) + 'other%d.yaml' % i), emit(rng, d))
    if rng.random() < .25:
        cmd.write(os.path.join(path, rng.choice(('aempty.yaml', 'zempty.yaml'))), rng.choice(('', '# nothing here\n', '---\n', '{}\n')))
    if rng.random() < .25:
        cmd.write(os.path.join(path, rng.choice(('anull.yaml', 'znull.yaml'))), '"@metadata@":\n' + yaml.safe_dump(other))
    rel = emit(rng, {'@metadata@': {'wcxf-relevant': True}, 'b->s::Re{extra}': entry(rng, 5.)})
    if rng.random() < .4:
        cmd.write(os.path.join(path, 'notes.txt'), rel)
        cmd.write(os.path.join(path, 'backup.yaml~'), rel)
    if rng.random() < .3:
        os.mkdir(os.path.join(path, 'sub'))
        cmd.write(os.path.join(path, 'sub', 'x.yaml'), rel)


def coefficients(rng, universal=True):
    C = gen.coeffs(rng, gen.keys_of('WET', 'EOS'), rng.choice(gen.STYLES), *rng.choice(((-9, -3), (-1, 1), (0, 6), (-25, -15))))
    for k in list(C):
        if 'nu' in k:
            o = k.replace('munumu', 'enue') if 'munumu' in k else k.replace('enue', 'munumu')
            C[o] = C[k]
    if not universal:
        k = rng.choice([k for k in gen.keys_of('WET', 'EOS') if 'nu' in k])
        o = k.replace('munumu', 'enue') if 'munumu' in k else k.replace('enue', 'munumu')
        x = complex(C.get(k) or rng.gauss(0, 1), 0) if rng.random() < .5 else complex(rng.gauss(0, 1), rng.gauss(0, 1))
        m = rng.random()
        if m < .3:
            C[k] = x
            C.pop(o, None)
        elif m < .45:
            C[k], C[o] = x, x + 1j * (abs(x) * 1e-3 + 1e-12)
        elif m < .55:
            C[k], C[o] = x, x + (abs(x) * 1e-3 + 1e-12)
        elif m < .8:
            C[k], C[o] = x, x * (1 + 1e-9)
        else:
            C[k], C[o] = x, complex(x).conjugate() + 1e-3j
    items = list(C.items())
    rng.shuffle(items)
    return dict(items)


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'every parameter of the EOS output compared with SM central value plus the part of the coefficient its name denotes'
    from wcxf.converters.eos import get_sm_wcs, wcxf2eos
    import wcxf.cli
    scratch = tempfile.mkdtemp(prefix='verif_eos_')
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        shipped(run, w, rng, scratch, get_sm_wcs, wcxf2eos)
        charged(run, w, rng, wcxf2eos)
        for i in range(run.n(400, 3000)):
            one(run, w, rng, scratch, i, get_sm_wcs, wcxf2eos, wcxf.cli.eos)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    run.floor(output=200, smread=100, refused=20, command=100, badcommand=50, replaced=50)


def shipped(run, w, rng, scratch, get_sm_wcs, wcxf2eos):
    d = os.path.join(scratch, 'shipped')
    os.mkdir(d)
    sm = {}
    for n in ('eos_btos.yaml', 'eos_btou.yaml'):
        src = os.path.join(core.REPO, 'wcxf', 'data', n)
        if not os.path.exists(src):
            continue
        shutil.copy(src, d)
        with open(src) as f:
            for k, v in yaml.safe_load(f).items():
                if k != '@metadata@':
                    sm[k] = v['central']
    for i in range(run.n(30, 200)):
        ok, got = run.guard(lambda: get_sm_wcs(d), 'reading parameter files', d)
        if ok:
            readcheck(run, got, sm, dict(dir='shipped'))
        C = coefficients(rng, i % 4 != 3)
        full(run, w, rng, C, got, expected(C, sm), wcxf2eos, 'shipped')


def charged(run, w, rng, wcxf2eos):
    """each charged-current coefficient, with only some of the EOS parameters present"""
    keys = gen.keys_of('WET', 'EOS')
    for k in keys:
        if 'enue' not in k:
            continue
        o = k.replace('enue', 'munumu')
        pre, op = k.replace('enue', 'lnu').split('::')
        x, y = complex(rng.gauss(0, 1), rng.gauss(0, 1)), complex(rng.gauss(0, 1), rng.gauss(0, 1))
        for parts in (('Re',), ('Im',), ('Re', 'Im')):
            sm = {'%s::%s{%s}' % (pre, p, op): num(rng) for p in parts}
            for C in ({k: x}, {o: x}, {k: x, o: y}, {k: x, o: x}, {k: x, o: x.conjugate()}, {k: x.real, o: x}, {k: x, o: -x}, {k: 1j * x.imag, o: x}, {}, {k: x.real, o: x.real},
                      {k: 0}, {o: 0.}, {k: 0, o: 0}, {k: 0, o: x}, {k: x, o: 0}, {k: 1.}, {o: 1.}, {o: -1.}, {k: 1j}, {o: 1j}, {k: 1, o: 1.}):
                full(run, w, rng, C, {n: entry(rng, v) for n, v in sm.items()}, expected(C, sm), wcxf2eos, 'charged')


def readcheck(run, got, sm, wit):
    run.observe('smread', key=repr(sorted(sm.items()))[:300])
    run.check(set(got) == set(sm), 'SM values read: missing %s, superfluous %s' % (sorted(set(sm) - set(got))[:5], sorted(set(got) - set(sm))[:5]), wit, kind='smnames')
    bad = [k for k in sm if k in got and not close(got[k]['central'], sm[k])]
    run.check(not bad, 'SM values of %s misread' % bad[:5], wit, kind='smvalue')


def full(run, w, rng, C, sm, exp, wcxf2eos, what):
    vals = gen.values(rng, C)
    wc = w.WC('WET', 'EOS', rng.choice((4.2, 4.2, 4.8, 2, 91.1876, 5., 160)), copy.deepcopy(vals))
    snap, smsnap = copy.deepcopy(doc.public(wc)), copy.deepcopy(sm)
    wit = dict(values=vals, sm=sm)
    if exp is None:
        try:
            wcxf2eos(wc, sm)
            run.violate('charged-current coefficients that differ between e and mu accepted', wit, kind='lfu')
        except ValueError:
            pass
        except Exception as e:
            run.violate('differing charged-current coefficients give %r' % e, wit, kind='lfutype')
        run.observe('refused', key=repr(sorted(vals))[:100] + str(run.evaluations))
    else:
        ok, got = run.guard(lambda: wcxf2eos(wc, sm), 'conversion to EOS', wit)
        if ok:
            judge(run, got, exp, wit, what)
    run.check(doc.same(doc.public(wc), snap), 'conversion changes the file object', wit, kind='mod')
    run.check(doc.same(sm, smsnap), 'conversion changes the SM values', wit, kind='modsm')


def one(run, w, rng, scratch, i, get_sm_wcs, wcxf2eos, eos):
    prefix = os.path.join(scratch, rng.choice(('p%d', 'p%d', 'p%d', 'eos [%d]', 'e*%d', 'q?%d', 'a b/%d', 'e[a-z]%d')) % i)
    pdir = os.path.join(prefix, 'share/eos/parameters')
    os.makedirs(pdir)
    keys = list(gen.keys_of('WET', 'EOS'))
    sm = smnames(rng, rng.sample(keys, rng.choice((3, 8, len(keys)))))
    if rng.random() < .3:
        sm['b->s::Re{unrelated}'] = num(rng)
        sm['other'] = num(rng)
    if rng.random() < .05:      # nothing there yet
        ok, got = run.guard(lambda: get_sm_wcs(pdir), 'reading an empty directory', sm)
        if ok:
            readcheck(run, got, {}, dict(empty=True))
    directory(rng, pdir, sm)
    # the same directory, written differently
    spelt = rng.choice((pdir, pdir, pdir + '/', os.path.relpath(pdir), os.path.join(pdir, '..', 'parameters'), './' + os.path.relpath(pdir) + '/'))
    ok, got = run.guard(lambda: get_sm_wcs(spelt), 'reading parameter files', sm)
    if not ok:
        return
    readcheck(run, got, sm, dict(sm=sm, spelt=spelt, files={f: cmd.readtext(os.path.join(pdir, f)) for f in os.listdir(pdir) if os.path.isfile(os.path.join(pdir, f))}))
    if rng.random() < .3:
        # the installation is replaced by another version in the same place
        shutil.rmtree(pdir)
        os.makedirs(pdir)
        for v in list(got.values()):
            v['central'] = -99.
        got.clear()
        sm = smnames(rng, rng.sample(keys, rng.choice((3, 8, len(keys)))))
        directory(rng, pdir, sm)
        ok, got = run.guard(lambda: get_sm_wcs(pdir), 'reading parameter files', sm)
        if not ok:
            return
        run.counts['replaced'] += 1
        readcheck(run, got, sm, dict(sm=sm, replaced=True))
    C = coefficients(rng, rng.random() < .85)
    exp = expected(C, sm)
    full(run, w, rng, C, {k: entry(rng, v) for k, v in sm.items()}, exp, wcxf2eos, 'generated')
    # the command
    vals = gen.values(rng, C)
    bad = rng.choice((None,) * 9 + ('key', 'basis', 'broken'))
    d = dict(eft='WET', basis='EOS', scale=rng.choice((4.2, 4.2, 4.8, 2, 91.1876, 160)), values=dict(vals))
    if bad == 'key':
        d['values']['b->s::nope'] = 1.
    elif bad == 'basis':
        d['basis'] = 'EOSx'
    text = json.dumps(d) if rng.random() < .5 else yaml.safe_dump(doc.plain(d))
    if bad == 'broken':
        text = doc.broken(text)
    home = os.path.join(prefix, 'home')
    argv = ['wcxf2eos']
    chan = rng.choice(('stdin', 'dash', 'file'))
    if chan == 'file':
        argv.append(cmd.write(os.path.join(prefix, 'in.wc'), text))
    elif chan == 'dash':
        argv.append('-')
    argv += ['--eosprefix', prefix]
    dest = rng.choice(('stdout', 'output', 'home') * 2 + ('nohome', 'both'))
    outf = None
    if dest == 'output' or dest == 'both':
        outf = os.path.join(prefix, 'out.yaml')
        argv += ['--output', outf]
    if dest in ('home', 'nohome', 'both'):
        argv += ['--eoshome', home]
        if dest != 'nohome':
            os.makedirs(os.path.join(home, 'parameters'))
        if dest == 'home':
            outf = os.path.join(home, 'parameters', 'wcxf.yaml')
    if dest == 'stdout' and rng.random() < .25:
        argv.append('--output')         # without a file name: standard output
    if outf and rng.random() < .5:      # left from an earlier run
        cmd.write(outf, emit(rng, {n: entry(rng, 3.) for n in rng.choice((['old::parameter'], list(sm)[:3], ['b->s::old%d' % j for j in range(3000)]))}))
        run.counts['output file existed'] += 1
    wit = dict(argv=argv, input=text, sm=sm)
    r = cmd.inprocess(eos, argv, '' if chan == 'file' else text)
    good = exp is not None and bad is None and dest not in ('nohome', 'both')
    if not good:
        run.observe('badcommand', key=(bad, dest, exp is None, i))
        run.check(not r.ok, 'wcxf2eos succeeds although %s' % (bad and 'the input is invalid (%s)' % bad or dest if dest in ('nohome', 'both') else 'coefficients are not lepton flavour universal'),
                  wit, kind='status')
    elif run.check(r.ok, 'wcxf2eos failed: status %s, %r' % (r.status, r.error), wit, kind='cmdfail'):
        run.observe('command', key=(chan, dest, i))
        txt = r.out if dest == 'stdout' else cmd.readtext(outf)
        try:
            got = yaml.safe_load(txt)
        except Exception as e:
            run.violate('wcxf2eos output is not plain YAML: %r' % e, dict(wit, output=str(txt)[:2000]), kind='yaml')
            got = {}
        judge(run, {} if got is None else got, exp, wit, 'command')
        if dest != 'stdout':
            run.check(not os.path.exists(os.path.join(home, 'parameters', 'wcxf.yaml')) or dest == 'home', 'unexpected file written', wit)
    shutil.rmtree(prefix, ignore_errors=True)
