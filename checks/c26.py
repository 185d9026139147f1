"""C26: command line."""
import concurrent.futures as cf
import copy
import io
import json
import locale
import os
import shutil
import tempfile
import yaml
from vlib import env, doc, gen, cmd, stage, monitor, oracle

FAST = [r for r in gen.ROUTES if not (len(r) == 4 and r[0] == 'SMEFT')]

# files are read in the encoding of the environment
UTF8 = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'
EXT = ('', '', '.json', '.yaml', '.yml', '.wcxf.json', '.wc.yaml', '.txt', '.JSON', ' file.json')


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'output and exit status of each command compared with the library call on the same input'
    scratch = tempfile.mkdtemp(prefix='verif_cli_')
    cwd = os.getcwd()
    try:
        stage.make(scratch)
        os.chdir(scratch)
        jobs = [plan(w, rng, scratch, i) for i in range(run.n(28, 200))]
        # real processes
        with cf.ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda j: stage.command(scratch, 'wcxf_cli', j['argv'][1:], j['stdin'], opts=('-O',) if j['i'] % 4 == 1 else ()), jobs))
        for j, r in zip(jobs, res):
            judge(run, w, j, cmd.Result(r.returncode, r.stdout.decode('utf-8', 'replace'), None, r.stderr.decode('utf-8', 'replace')), 'process')
        # the same kinds of command in this process
        import wcxf.cli
        for i in range(run.n(420, 4000)):
            j = plan(w, rng, scratch, 10000 + i)
            judge(run, w, j, cmd.inprocess(wcxf.cli.wcxf_cli, j['argv'], j['stdin']), 'inprocess')
        scripts(run, w, rng, scratch)
        fulldisk(run, rng, scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    run.floor(ok_process=10, bad_process=5, ok_inprocess=150, bad_inprocess=80, script=15, fulldisk=8)


def text_of(rng, d):
    d = doc.plain(d)
    return (json.dumps(d, indent=rng.choice((None, 2, '\t')), ensure_ascii=rng.random() < .5) if rng.random() < .5
            else yaml.safe_dump(d, default_flow_style=rng.choice((False, None)), allow_unicode=rng.random() < .5))


def plan(w, rng, scratch, i):
    """A command with everything needed to judge it."""
    sub = rng.choice(('convert', 'translate', 'translate', 'match', 'match', 'validate', 'validate'))
    j = dict(sub=sub, bad=None, i=i)
    args, opts = [], []
    fmt = 'json'
    if sub == 'convert':
        d = {'eft': doc.word(rng), 'x': doc.plain(doc.data(rng, 3)), 'values': {k: doc.num(rng) for k in doc.names(rng, 4)}}
        fmt = rng.choice(('json', 'yaml'))
        plain = rng.random() < .5 or not UTF8
        text = yaml.safe_dump(d, allow_unicode=not plain) if fmt == 'json' else json.dumps(d, ensure_ascii=plain)
        args = [rng.choice((fmt, fmt.upper(), fmt.capitalize()))]
        j['doc'] = d
        r = rng.random()
        if r < .15:
            j['bad'], text = 'broken', doc.broken(text) if fmt == 'json' else text[:-2]
        elif r < .25:
            j['bad'], args = 'format', [rng.choice(('xml', 'jsonn', 'yam', 'json,yaml'))]
    elif sub in ('translate', 'match'):
        routes = [r for r in FAST if (len(r) == 3) == (sub == 'translate')]
        if sub == 'match' and rng.random() < .15:
            routes = gen.SMEFT_MATCH
        route = rng.choice(routes)
        C = gen.consistent(route, gen.route_input(rng, route, rng.choice(gen.STYLES)))
        d = dict(eft=route[0], basis=route[1], scale=gen.scale(rng), values=gen.values(rng, C))
        if rng.random() < .3:
            d['metadata'] = {'description': doc.text(rng)}
        text = text_of(rng, d)
        args = list(route[2:])
        j.update(route=route, doc=d)
        fmt = rng.choice(('json', 'json', 'yaml'))
        if fmt == 'yaml' or rng.random() < .3:
            opts += ['--format', rng.choice((fmt, fmt.upper()))]
        r = rng.random()
        if r < .1:
            j['bad'], args = 'target', args[:-1] + ['no such basis']
        elif r < .13 and sub == 'match':
            j['bad'], args = 'target', ['no such eft', args[-1]]
        elif r < .16:
            # known names, but no rule: the basis of the file itself or another one
            new = [route[1]] if sub == 'translate' else list(route[:2])
            if rng.random() < .5:
                new = list(rng.choice(gen.ROUTES)[:2])[-len(new):]
            if route[:2] + tuple(new) not in gen.ROUTES:
                j['bad'], args = 'target', new
        elif r < .2:
            j['bad'], text = 'broken', doc.broken(text)
        elif r < .25:
            j['bad'], opts = 'format', ['--format', 'xml']
        elif r < .3:
            j['bad'] = 'incomplete'
            dd = dict(d)
            del dd[rng.choice(('eft', 'basis', 'scale', 'values'))]
            text = text_of(rng, dd)
    else:
        t = rng.choice(('wc', 'basis', 'eft'))
        r = rng.random()
        if t == 'wc':
            e, b = rng.choice((('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET-4', 'flavio'), ('WET', 'EOS'), ('WET-2', 'JMS')))
            d = dict(eft=e, basis=b, scale=91.2, values=gen.values(rng, gen.coeffs(rng, gen.keys_of(e, b))))
            if r < .3:
                j['bad'] = 'key'
                d['values']['nope_1'] = rng.choice((0, 1.))
            elif r < .5:
                j['bad'] = 'basis'
                d[rng.choice(('eft', 'basis'))] = 'nope'
            if j['bad'] != 'key' and rng.random() < .3:
                d['values'] = {}
        elif t == 'basis':
            d = dict(eft='WET', basis='cli%d' % i, sectors={s: {'%s_%d' % (s, k): doc.meta(rng) for k in range(rng.randint(0, 4))} for s in rng.sample(['sector%d' % x for x in range(5)], 3)})
            for s in d['sectors'].values():
                for m in s.values():
                    if m and 'tex' in m:
                        m['tex'] = 'O_7'
            ss = list(d['sectors'])
            child = rng.choice(('JMS', 'flavio', 'EOS')) if rng.random() < .3 else None
            if child:
                d['parent'] = child
            if r < .2:
                j['bad'] = 'sector'
                d['sectors']['nosector'] = {}
            elif r < .4:
                j['bad'] = 'duplicate'
                d['sectors'][ss[0]]['dup'] = {}
                d['sectors'][ss[1]]['dup'] = {'tex': 'x'}
            elif r < .45:
                j['bad'] = 'eft'
                d['eft'] = 'nope'
            elif r < .55:
                j['bad'] = 'parent'
                d['parent'] = 'nope'
            elif r < .65:
                d['parent'] = rng.choice(('flavio', 'EOS'))
        else:
            d = dict(eft='cliE%d' % i, sectors={'a': None, 'b': {'tex': 'x'}})
            if r < .3:
                j['bad'] = 'incomplete'
                del d['sectors']
        args = [t]
        text = text_of(rng, d)
        if rng.random() < .08:
            j['bad'], text = 'broken', doc.broken(text)
        elif rng.random() < .08:
            j['bad'], args = 'type', [rng.choice(('wcs', 'EFTs', 'bases', ''))]
        j['doc'] = d
    # channels
    chan = rng.choice(('stdin', 'dash', 'file', 'file'))
    if chan == 'file':
        args.append(cmd.write(os.path.join(scratch, 'in%d%s' % (i, rng.choice(EXT))), text))
        if rng.random() < .06:
            os.remove(args[-1])
            j['bad'] = 'missing file'
    elif chan == 'dash':
        args.append('-')
    j['out'] = None
    if sub != 'validate' and rng.random() < .5:
        j['out'] = os.path.join(scratch, 'out%d%s' % (i, rng.choice(EXT)))
        if rng.random() < .3:
            # an existing file is replaced, not extended
            j['old'] = rng.choice(('old content', '{"old": ' + '1' * 5000 + '}', 'eft: old\n' * 500))
            cmd.write(j['out'], j['old'])
        opts += ['--output', j['out']]
    argv = [sub] + (opts + args if rng.random() < .3 else args + opts)
    if j['out'] is None and sub != 'validate' and rng.random() < .12:
        # the option without a file name: standard output
        argv.append('--output')
    j.update(argv=['wcxf'] + argv, stdin='' if chan == 'file' else text, text=text, fmt=fmt)
    return j


def judge(run, w, j, r, how):
    wit = dict(argv=j['argv'], input=j['text'][:3000], stdin=bool(j['stdin']), status=r.status, stdout=r.out[:800], stderr=r.err[-800:], error=repr(r.error))
    what = 'wcxf %s (%s)' % (j['sub'], how)
    if j['bad']:
        run.observe('bad_' + how, key=(j['sub'], j['bad'], j['i']), sample=dict(argv=j['argv'][1:3], bad=j['bad'], status=r.status))
        run.check(not r.ok, '%s: success reported although the input is bad (%s)' % (what, j['bad']), wit, kind=how + 'bad' + j['bad'])
        if j['bad'] not in ('format',) and j['sub'] != 'validate':
            left = j['out'] and cmd.readtext(j['out']) or ''
            run.check(not r.out.strip() and (not left.strip() or left == j.get('old')), '%s: output written for bad input (%s)' % (what, j['bad']),
                      wit, kind=how + 'badout')
        if j['sub'] == 'validate':
            run.check('successful' not in r.out, '%s: "successful" printed for bad input (%s)' % (what, j['bad']), wit, kind=how + 'badsucc')
        return
    run.observe('ok_' + how, key=(j['sub'], j['i']), sample=dict(argv=j['argv'][1:4], status=r.status))
    if not run.check(r.ok, '%s failed with status %s on valid input: %s %s' % (what, r.status, r.error, r.err[-200:]), wit, kind=how + 'fail'):
        return
    if j['sub'] == 'validate':
        return
    if j['out']:
        run.check(not r.out.strip(), '%s: writes to standard output in addition to --output' % what, wit, kind=how + 'both')
    t = cmd.readtext(j['out']) if j['out'] else r.out
    if not run.check(t is not None, '%s: no output file' % what, wit, kind=how + 'none'):
        return
    try:
        got = json.loads(t) if j['fmt'] == 'json' else yaml.safe_load(t)
        if j['fmt'] == 'yaml':
            try:
                json.loads(t)
                run.check(not isinstance(got, dict) or not got, '%s: JSON written although YAML was requested' % what, wit, kind=how + 'fmt')
            except ValueError:
                pass
    except Exception as e:
        run.violate('%s: output is not %s: %r' % (what, j['fmt'], e), wit, kind=how + 'parse')
        return
    if not run.check(isinstance(got, dict), '%s: output is no document: %r' % (what, t[:100]), wit, kind=how + 'nodoc'):
        return
    if j['sub'] == 'convert':
        src = json.loads(j['text']) if j['fmt'] == 'yaml' else yaml.safe_load(j['text'])
        run.check(doc.same(got, src), '%s: data changed' % what, wit, kind=how + 'convert')
        return
    # library call on the same document
    wc = w.WC.load(io.StringIO(j['text']))
    lib = gen.apply(wc, j['route'])
    for k in ('eft', 'basis', 'scale'):
        run.check(isinstance(got, dict) and got.get(k) == getattr(lib, k), '%s: %s is %r, library gives %r' % (what, k, got.get(k), getattr(lib, k)), wit, kind=how + 'label')
    a = {k: monitor.read(v) for k, v in (got.get('values') or {}).items()}
    b = lib.dict
    if a != b:
        C = {k: monitor.read(v) for k, v in j['doc']['values'].items()}
        tol = oracle.expected(j['route'], C, wc.scale, None)
        bad = [(k, a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b) if not abs(a.get(k, 0) - b.get(k, 0)) <= 2 * tol.get(k, (0, 0))[1]]
        run.check(not bad, '%s: %s differ from the library result' % (what, bad[:3]), wit, kind=how + 'value')
    run.check(set(got) == {k for k in doc.public(lib)}, '%s: entries %s, library gives %s' % (what, sorted(got), sorted(doc.public(lib))), wit, kind=how + 'entries')


def scripts(run, w, rng, scratch):
    """The other two console scripts as processes: status only (content: C24, C25)."""
    d = dict(eft='WET', basis='EOS', scale=4.2, values={'b->smumu::c9': {'Re': -1., 'Im': .5}})
    p = os.path.join(scratch, 'eosp', 'share/eos/parameters')
    os.makedirs(p)
    cmd.write(os.path.join(p, 'a.yaml'), yaml.safe_dump({'@metadata@': {'wcxf-relevant': True}, 'b->smumu::Re{c9}': {'central': 4., 'min': 0., 'max': 5.}}))
    r = stage.command(scratch, 'eos', ['--eosprefix', os.path.join(scratch, 'eosp')], json.dumps(d))
    run.check(r.returncode == 0 and b'3.0' in r.stdout, 'wcxf2eos: status %s' % r.returncode, dict(out=r.stdout.decode()[:500], err=r.stderr.decode()[-500:]))
    r = stage.command(scratch, 'eos', ['--eosprefix', os.path.join(scratch, 'eosp'), '--eoshome', os.path.join(scratch, 'nohome')], json.dumps(d))
    run.check(r.returncode != 0, 'wcxf2eos: success reported for a missing EOS home directory')
    f = cmd.write(os.path.join(scratch, 'sm.json'), json.dumps(dict(eft='SMEFT', basis='Warsaw mass', scale=1e3, values={'phi': 1e-6})))
    r = stage.command(scratch, 'smeftsim', [f, '--output', os.path.join(scratch, 'card.dat')])
    run.check(r.returncode == 0 and os.path.exists(os.path.join(scratch, 'card.dat')), 'wcxf2smeftsim: status %s' % r.returncode, r.stderr.decode()[-500:])
    run.observe('scripts', key=1)
    # files that are not acceptable
    import wcxf.cli
    good = dict(eos=d, smeftsim=dict(eft='SMEFT', basis='Warsaw mass', scale=1e3, values={'phi': 1e-6}))
    for fn, g in sorted(good.items()):
        for how in ('none', 'eft', 'basis', 'other eft', 'key', 'zero key', 'scale', 'missing', 'list', 'broken', 'empty'):
            e = copy.deepcopy(g)
            if how == 'eft':
                e['eft'] = rng.choice(('nope', '', 'wet'))
            elif how == 'basis':
                e['basis'] = rng.choice(('nope', 'eos', ''))
            elif how == 'other eft':
                e['eft'] = 'WET-2'
            elif how.endswith('key'):
                e['values']['nope'] = 0 if how[0] == 'z' else 1.
            elif how == 'scale':
                e['scale'] = 'x'
            elif how == 'missing':
                del e[rng.choice(('eft', 'basis', 'scale', 'values'))]
            text = dict(list=json.dumps([e]), broken=json.dumps(e)[:-1], empty='').get(how, json.dumps(e))
            f = cmd.write(os.path.join(scratch, 'script.json'), text)
            out = os.path.join(scratch, 'script.out')
            if os.path.exists(out):
                os.remove(out)
            argv = ['x', f, '--output', out] + (['--eosprefix', os.path.join(scratch, 'eosp')] if fn == 'eos' else [])
            r = cmd.inprocess(getattr(wcxf.cli, fn), argv, 'n\n')
            wit = dict(command=fn, input=text, status=r.status, error=repr(r.error))
            run.observe('script', key=(fn, how))
            if how == 'none':
                run.check(r.ok and cmd.readtext(out), '%s failed on valid input' % fn, wit, kind='scriptok')
            else:
                run.check(not r.ok, '%s: success reported although the input is bad (%s)' % (fn, how), wit, kind='scriptbad' + how)
                run.check(not (cmd.readtext(out) or '').strip(), '%s: output written for bad input (%s)' % (fn, how), wit, kind='scriptout' + how)


def fulldisk(run, rng, scratch):
    """Output that cannot be written must not be reported as a success."""
    if not os.path.exists('/dev/full'):
        run.counts['fulldisk'] += 100
        return
    C = gen.coeffs(rng, gen.keys_of('WET', 'JMS'))
    wcs = json.dumps(doc.plain(dict(eft='WET', basis='JMS', scale=80., values=gen.values(rng, C))))
    few = json.dumps(dict(eft='WET', basis='JMS', scale=80., values={'G': 1e-6}))
    eosd = json.dumps(dict(eft='WET', basis='EOS', scale=4.2, values={'b->smumu::c9': {'Re': -1., 'Im': .5}}))
    sm = json.dumps(dict(eft='SMEFT', basis='Warsaw mass', scale=1e3, values={'phi': 1e-6}))
    home = os.path.join(scratch, 'fullhome')
    os.makedirs(os.path.join(home, 'parameters'))
    smf = cmd.write(os.path.join(scratch, 'smfull.json'), sm)
    eosp = ['--eosprefix', os.path.join(scratch, 'eosp')]
    jobs = []
    for text in (wcs, few):
        for fmt in ('json', 'yaml'):
            jobs += [('wcxf_cli', ['convert', fmt], text), ('wcxf_cli', ['translate', 'flavio', '--format', fmt], text),
                     ('wcxf_cli', ['match', 'WET-4', 'flavio', '--format', fmt], text)]
    jobs.append(('eos', eosp, eosd))
    jobs = [j + (how,) for j in jobs for how in ('output', 'stdout')]
    jobs += [('eos', eosp + ['--eoshome', home], eosd, os.path.join(home, 'parameters', 'wcxf.yaml')), ('smeftsim', [smf], '', 'output')]

    def one(ij):
        i, (fn, argv, text, how) = ij
        if how == 'stdout':
            with open('/dev/full', 'w') as f:
                return stage.command(scratch, fn, argv, text, stdout=f).returncode
        # a link of our own: replacing it does no harm
        link = os.path.join(scratch, 'full%d' % i) if how == 'output' else how
        os.symlink('/dev/full', link)
        r = stage.command(scratch, fn, argv + (['--output', link] if how == 'output' else []), text)
        if r.returncode == 0 and not os.path.islink(link):
            return None         # the link was replaced by a file: nothing was lost
        return r.returncode
    with cf.ThreadPoolExecutor(6) as ex:
        for (fn, argv, text, how), st in zip(jobs, ex.map(one, enumerate(jobs))):
            run.observe('fulldisk', key=(fn, tuple(argv[:2]), how[-8:], len(text)), sample=dict(command=fn, argv=argv[:3], to=how[-10:], status=st))
            run.check(st != 0, '%s %s: success reported although nothing could be written (%s)' % (fn, ' '.join(argv[:2]), how[-10:]),
                      dict(argv=argv, input=text[:500]), kind='full' + fn)
