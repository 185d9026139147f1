"""C02: YAML <-> JSON conversion."""
import io
import json
import os
import subprocess
import sys
import tempfile
import shutil
import yaml
from vlib import env, doc
from vlib.core import REPO


def run(run):
    env.load(register=False)
    from wcxf.converters import yamljson
    rng = run.rng
    run.rule = 'parsed output compared with the document; status and output stream of corrupted input'

    def document(i):
        d = {'eft': doc.word(rng), 'basis': doc.word(rng)}
        for k in doc.names(rng, rng.randint(0, 6)):
            d[k] = doc.plain(doc.data(rng, 4))
        if i % 9 == 0:
            return rng.choice(([], {}, [1, 2], 'text', 1.5, [d, d], True))
        return d

    for i in range(run.n(1500, 20000)):
        d = document(i)
        if i % 100 == 7:
            d = {'eft': 'WET', 'values': {'c%d' % n: doc.num(rng) for n in range(1500)}, 'long': 'word ' * 300, 'list': [doc.num(rng) for _ in range(400)]}
        elif i % 100 == 57 and isinstance(d, dict):
            d['values'] = rng.choice(({}, {}, [], None, {'x': {}}))
        odd = isinstance(d, dict) and rng.random() < .15
        if odd:
            d = dict(d, odd={doc.odd(rng): doc.odd(rng), 'x': [doc.odd(rng)]})
            run.counts['odd characters'] += 1
        # (PyYAML writes some of these characters as line ends when asked for unicode)
        yin = yaml.safe_dump(d, default_flow_style=rng.choice((True, False, None)), allow_unicode=rng.random() < .5 and not odd,
                             width=rng.choice((80, 80, 30, 10000)), indent=rng.choice((2, 4)), explicit_start=rng.random() < .2,
                             explicit_end=rng.random() < .1, default_style=rng.choice((None,) * 6 + ('"', "'")), sort_keys=rng.random() < .5)
        if rng.random() < .2:
            yin = '# a comment\n' + yin
        if rng.random() < .1 and isinstance(d, dict) and not yin.rstrip().endswith(('...', '}')) and yin.lstrip('# acomment\n-').find('{') != 0:
            yin2 = yin + 'anchored: &x {a: 1, b: [1.5, 2]}\nalias: *x\nmerged: {<<: *x, c: 3}\nblock: |\n  two\n  lines\nfolded: >\n  one\n  line\n'
            try:
                d2 = yaml.safe_load(yin2)
                json.dumps(d2)
                yin, d = yin2, d2
                run.counts['anchors_and_merges'] += 1
            except Exception:
                pass
        jin = json.dumps(d, indent=rng.choice((None, 2, 1)), ensure_ascii=rng.random() < .5, sort_keys=rng.random() < .2,
                         separators=rng.choice((None, (',', ':'))))
        src = yaml.safe_load(yin)
        assert doc.same(src, json.loads(jin))
        out = io.StringIO()
        ok, rc = run.guard(lambda: yamljson.convert_json(io.StringIO(yin), out), 'YAML to JSON', yin)
        if ok:
            run.observe('to_json', key=i, sample=dict(input=yin[:200], output=out.getvalue()[:200]))
            run.check(not rc, 'converting valid YAML gives status %r' % rc, yin)
            try:
                p = json.loads(out.getvalue())
            except ValueError as e:
                run.violate('YAML to JSON output is not JSON: %s' % e, dict(input=yin, output=out.getvalue()))
                continue
            run.check(doc.same(p, src), 'YAML to JSON changes the data', lambda: dict(input=yin, output=out.getvalue()))
            back = io.StringIO()
            ok, rc = run.guard(lambda: yamljson.convert_yaml(io.StringIO(out.getvalue()), back), 'JSON to YAML', out.getvalue())
            if ok:
                run.check(not rc and doc.same(safe(back.getvalue()), src), 'YAML to JSON to YAML changes the data',
                          lambda: dict(input=yin, output=back.getvalue()))
        out = io.StringIO()
        ok, rc = run.guard(lambda: yamljson.convert_yaml(io.StringIO(jin), out), 'JSON to YAML', jin)
        if ok:
            run.observe('to_yaml', key=i)
            run.check(not rc, 'converting valid JSON gives status %r' % rc, jin)
            run.check(doc.same(safe(out.getvalue()), src), 'JSON to YAML changes the data', lambda: dict(input=jin, output=out.getvalue()))
    # large documents
    for i, (n, size) in enumerate(((9, 2500000), (6000, 9), (300, 300000))):
        d = {'eft': 'WET', 'values': {'coefficient %d' % k: doc.num(rng) for k in range(n)}, 'long': 'x' * size, 'last': 'end'}
        jin = json.dumps(d)
        out, back = io.StringIO(), io.StringIO()
        ok, rc = run.guard(lambda: yamljson.convert_yaml(io.StringIO(jin), out), 'JSON to YAML, large document', len(jin))
        if ok and run.check(not rc, 'converting a large JSON document gives status %r' % rc, len(jin)):
            run.observe('large', key=(n, size))
            ok, rc = run.guard(lambda: yamljson.convert_json(io.StringIO(out.getvalue()), back), 'YAML to JSON, large document', len(jin))
            run.check(ok and not rc and doc.same(json.loads(back.getvalue()), d), 'converting a large document changes the data', dict(size=len(jin)), kind='large')
    # corrupted input
    for i in range(run.n(800, 10000)):
        d = document(1)
        d['filler'] = {'a': [1, 2, 3], 'b': 'text'}
        if i % 2:
            s = json.dumps(d, indent=rng.choice((None, 2)))
            s = corrupt(rng, s)
            try:
                json.loads(s)
                continue
            except ValueError:
                pass
            fn, what = yamljson.convert_yaml, 'JSON'
        else:
            s = corrupt(rng, yaml.safe_dump(d, default_flow_style=rng.choice((True, False))))
            try:
                yaml.safe_load(s)
                continue
            except yaml.constructor.ConstructorError:
                # syntactically YAML, but with a mapping or list as a key, a bad tag ...: an exception reports it, too
                out = io.StringIO()
                try:
                    rc = yamljson.convert_json(io.StringIO(s), out)
                except Exception:
                    rc = 1
                run.observe('bad_key', key=s)
                run.check(bool(rc) and out.getvalue() == '', 'YAML that cannot be constructed gives status %r' % rc, dict(input=s, output=out.getvalue()), kind='badkey')
                continue
            except yaml.YAMLError:
                pass
            except Exception:
                continue
            fn, what = yamljson.convert_json, 'YAML'
        out = io.StringIO()
        ok, rc = run.guard(lambda: fn(io.StringIO(s), out), 'converting unparsable ' + what, s)
        if ok:
            run.observe('bad_' + what, key=s)
            run.check(bool(rc), 'unparsable %s gives status %r' % (what, rc), s, kind='badstatus' + what)
            run.check(out.getvalue() == '', 'unparsable %s produces output' % what, dict(input=s, output=out.getvalue()), kind='badout' + what)
    command(run, rng, document)
    run.floor(to_json=1000, to_yaml=1000, bad_JSON=50, bad_YAML=50, command=10, anchors_and_merges=5, large=3)


def safe(s):
    try:
        return yaml.safe_load(s)
    except Exception as e:
        return ('unparsable', repr(e))


def corrupt(rng, s):
    r = rng.random()
    if r < .4:
        return s[:rng.randint(0, max(0, len(s) - 2))]
    i = rng.randint(0, len(s))
    if r < .7:
        return s[:i] + rng.choice('{}[]":,\t&*!%@') + s[i:]
    if r < .85:
        return s[:i] + s[i + rng.randint(1, 3):]
    return s + rng.choice(('}', ']', '\n---\nb: 2\n', '\n...\n---\n- x\n', '{}', ' null', '\n - x\n y', '"', '\x00', '\x07'))


def command(run, rng, document):
    """the convert subcommand as a real process"""
    tmp = tempfile.mkdtemp(prefix='verif_c02_')
    try:
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
        cmd = [sys.executable, '-W', 'ignore', '-c', 'import sys; from wcxf.cli import wcxf_cli; sys.exit(wcxf_cli())', 'convert']
        n = run.n(14, 80)
        for i in range(n):
            to = ('json', 'yaml')[i % 2]
            d = document(1)
            good = i % 3 != 2
            s = yaml.safe_dump(d) if to == 'json' else json.dumps(d)
            if not good:
                s = ('a: [1, 2\nb: }' if to == 'json' else '{"a": 1,')
            fmt = to.upper() if i % 5 == 0 else to
            fn, of = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
            with open(fn, 'w', encoding='utf-8') as f:
                f.write(s)
            args, stdin = ([fmt, fn], '') if i % 4 < 2 else ([fmt, '-'], s)
            tofile = i % 4 in (1, 2)
            if tofile:
                args += ['--output', of]
            r = subprocess.run(cmd + args, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
            txt = open(of, encoding='utf-8').read() if tofile and os.path.exists(of) else r.stdout.decode()
            run.observe('command', key=(args[0], good, tofile, i))
            wit = dict(args=args, input=s, rc=r.returncode, out=txt[:500], err=r.stderr.decode()[-500:])
            if good:
                run.check(r.returncode == 0, 'wcxf convert fails with status %s' % r.returncode, wit)
                try:
                    p = json.loads(txt) if to == 'json' else yaml.safe_load(txt)
                except Exception as x:
                    p = repr(x)
                run.check(doc.same(p, d), 'wcxf convert %s changes the data' % to, wit)
            else:
                run.check(r.returncode != 0, 'wcxf convert of unparsable input exits with 0', wit)
                run.check(not txt.strip(), 'wcxf convert of unparsable input writes output', wit)
            if os.path.exists(of):
                os.remove(of)
        for bad in ('xml', 'toml'):
            r = subprocess.run(cmd + [bad, '-'], input=b'{}', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
            run.observe('command', key=bad)
            run.check(r.returncode != 0, 'wcxf convert to unknown format %s exits with 0' % bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
