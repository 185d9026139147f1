"""C04: validation of basis files, with a recording fake latex."""
import copy
import os
import re
import shutil
import tempfile
from vlib import env, doc, gen, bases as B

SCRIPT = r'''#!/bin/sh
# records the document; fails if it contains \badcommand; FAKE_MODE selects faults
out=.; last=
while [ $# -gt 0 ]; do
  case "$1" in
    -output-directory) out="$2"; shift;;
    -output-directory=*) out="${1#*=}";;
    *) last="$1";;
  esac; shift
done
b="${last##*/}"; log="$out/${b%.tex}.log"; base="$out/${b%.tex}"
/bin/cat "$last" >> "$FAKE_RECORD"
echo "$out" >> "$FAKE_RECORD.out"
echo run >> "$FAKE_RECORD.n"
fail=0
if /bin/grep -q 'badcommand' "$last"; then fail=1; fi
case "$FAKE_MODE" in
  slow) /bin/sleep 0.05;;
  nolog) exit $fail;;
  binary) printf 'This is pdfTeX \351\377\n' > "$log"
          if [ $fail = 1 ]; then printf '! Undefined control sequence.\nl.4 \\badcommand \351\n\n' >> "$log"; fi; exit $fail;;
  emergency) if [ $fail = 1 ]; then printf 'x\n! Emergency stop.\n<*> \\badcommand' > "$log"; else : > "$log"; fi
             : > "$base.aux"; exit $fail;;
  killed) if [ $fail = 1 ]; then kill -9 $$; fi; echo ok > "$log"; exit 0;;
  longlog) (echo 'This is LaTeX'; /usr/bin/seq -f '(/usr/share/texmf/tex/latex/base/file%g.sty)' 1 4000; echo) > "$log"
           if [ $fail = 1 ]; then printf '! Undefined control sequence.\nl.4 ... \\badcommand\n\nrest\n' >> "$log"; fi; exit $fail;;
  chatty) echo "noise on stderr" >&2; echo noise; /bin/mkdir -p "$out/sub"; : > "$out/sub/file"; : > "$base.dvi";;
esac
if [ $fail = 1 ]; then printf 'This is LaTeX\n! Undefined control sequence.\nl.4 ... \\badcommand\n\nrest\n' > "$log"; exit 1; fi
echo ok > "$log"
exit 0
'''
MODES = ('normal', 'nolog', 'binary', 'emergency', 'killed', 'chatty', 'longlog')


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = 'accept/reject of each basis validation compared with a model; temporary directory inspected after every call; document seen by latex compared with the operators'
    tmp = tempfile.mkdtemp(prefix='verif_c04_')
    saved = dict(os.environ), tempfile.tempdir, os.getcwd()
    try:
        t, bindir, empty, cwd = (os.path.join(tmp, x) for x in ('tmp', 'bin', 'empty', 'cwd'))
        for d in (t, bindir, empty, cwd):
            os.mkdir(d)
        with open(os.path.join(bindir, 'latex'), 'w') as f:
            f.write(SCRIPT)
        os.chmod(os.path.join(bindir, 'latex'), 0o755)
        # executables that cannot be run: no permission, not a program, a directory
        os.mkdir(os.path.join(empty, 'noperm'))
        shutil.copy(os.path.join(bindir, 'latex'), os.path.join(empty, 'noperm', 'latex'))
        os.chmod(os.path.join(empty, 'noperm', 'latex'), 0o644)
        os.mkdir(os.path.join(empty, 'noprog'))
        with open(os.path.join(empty, 'noprog', 'latex'), 'w') as f:
            f.write('neither a script nor a binary')
        os.chmod(os.path.join(empty, 'noprog', 'latex'), 0o755)
        os.makedirs(os.path.join(empty, 'dir', 'latex'))
        rec = os.path.join(tmp, 'rec')
        os.environ['FAKE_RECORD'] = rec
        os.environ['TMPDIR'] = t
        tempfile.tempdir = t
        os.chdir(cwd)
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        try:
            work(run, w, rng, t, bindir, empty, cwd, rec)
        finally:
            os.dup2(err, 2)
    finally:
        os.chdir(saved[2])
        tempfile.tempdir = saved[1]
        os.environ.clear()
        os.environ.update(saved[0])
        shutil.rmtree(tmp, ignore_errors=True)
    run.floor(accept=150, eft=40, sector=40, duplicate=40, latex=30, clean=300, document=80, missing_latex=50, others=100, parallel=30)


SENTINELS = {}


def occupy(rec, t):
    """Somebody else now owns the directories earlier validations used: with
    files of the same names, whose content must neither matter nor change."""
    if not os.path.exists(rec + '.out'):
        return
    with open(rec + '.out') as f:
        dirs = sorted(set(f.read().split('\n')))
    for d in dirs[-3:]:
        d = os.path.realpath(d)
        if os.path.dirname(d) == os.path.realpath(t) and not os.path.exists(d):
            os.makedirs(d)
            for n, txt in (('mine', 'x'), ('textest.log', '! Undefined control sequence.\nl.1 stale\n'), ('textest.tex', 'other')):
                SENTINELS[os.path.join(d, n)] = txt
                with open(os.path.join(d, n), 'w') as f:
                    f.write(txt)


def threads(run, w, rng, rec):
    """Bases validated at the same time, with a slow latex."""
    import threading
    os.environ['FAKE_MODE'] = 'slow'
    w.EFT('T', {'s': None})
    out = {}

    def one(i, b):
        try:
            b.validate()
            out[i] = None
        except Exception as e:
            out[i] = e
    for rnd in range(run.n(6, 60)):
        bs = [w.Basis('T', 'thr%d' % i, {'s': {'c%d' % i: {'tex': r'\badcommand{%d}' % i if i % 2 else 'O_%d' % i}}}) for i in range(6)]
        ts = [threading.Thread(target=one, args=(i, b)) for i, b in enumerate(bs)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        for i in range(6):
            run.observe('parallel', key=(rnd, i))
            good = isinstance(out[i], ValueError) and 'badcommand' in str(out[i]) if i % 2 else out[i] is None
            run.check(good, 'validated at the same time as others, a %s basis gives %r' % ('bad' if i % 2 else 'good', out[i]), kind='parallel')


def validate(run, w, rng, b, exp, names, t, cwd, mode, wit):
    snap = copy.deepcopy(doc.public(b))
    os.environ['FAKE_MODE'] = mode
    try:
        b.validate()
        e = None
    except Exception as x:
        e = x
    run.observe(exp, key=repr(wit)[:120] + mode)
    wit = dict(wit, latex=mode, outcome=repr(e))
    if exp == 'accept':
        run.check(e is None, 'consistent basis refused: %s' % repr(e)[:200], wit, kind='refused')
    elif run.check(e is not None, 'basis with %s problem accepted (latex: %s)' % (exp, mode), wit, kind='accepted' + exp):
        run.check(isinstance(e, ValueError) and not isinstance(e, UnicodeError), 'basis validation raised %r' % e, wit, kind='type' + exp)
        for n in names:
            run.check(n in str(e) or repr(n)[1:-1] in str(e), 'error does not name %r: %s' % (n, str(e)[:200]), wit, kind='message' + exp)
    for p, txt in SENTINELS.items():
        run.observe('others', key=p)
        now = open(p).read() if os.path.exists(p) else None
        run.check(now == txt, 'validation touches a file that is not its own: %s' % os.path.basename(p), wit, kind='others')
    for p in SENTINELS:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    SENTINELS.clear()
    left = os.listdir(t) + os.listdir(cwd)
    run.observe('clean', key=(mode, exp, len(wit)))
    if not run.check(not left, 'validation leaves files behind: %s (latex: %s)' % (left[:3], mode), wit, kind='left'):
        for x in os.listdir(t):
            shutil.rmtree(os.path.join(t, x), ignore_errors=True)
    run.check(doc.same(doc.public(b), snap), 'validation modifies the basis', wit, kind='mod')


def structure(run, d, texs, sec):
    """The document is one LaTeX can process: preamble, body, end; operators inside, in math mode."""
    run.observe('structure', key=len(d))
    marks = [d.find(x) for x in ('\\documentclass', '\\begin{document}', '\\end{document}')]
    if not run.check(-1 not in marks and marks == sorted(marks), 'latex is given an incomplete document', dict(document=d[:3000]), kind='incomplete'):
        return
    run.check('amsmath' in d[:marks[1]] or not any('text' in x for x in texs), 'latex is given a document without amsmath', dict(document=d[:3000]), kind='ams')
    body = d[marks[1]:marks[2]]
    for x in texs:
        i = body.find(x)
        if i < 0:
            continue       # reported below
        before = re.sub(r'\\text\{[^{}]*\}', '', body[:i]).replace('\\\\', '').replace('\\$', '')
        math = before.count('$') % 2 or before.count('\\[') > before.count('\\]') or before.count('\\(') > before.count('\\)') or \
            any(before.count('\\begin{%s' % e) > before.count('\\end{%s' % e) for e in ('equation', 'align', 'gather', 'displaymath', 'math'))
        run.check(math, 'operator %r is not in math mode' % x, dict(document=d[:3000]), kind='math')


def work(run, w, rng, t, bindir, empty, cwd, rec):
    path = os.environ['PATH']
    for i in range(run.n(450, 5000)):
        problem = (None, None, 'eft', 'sector', 'duplicate', 'latex')[i % 6]
        latex = i % 4 != 3
        os.environ['PATH'] = (bindir if latex else rng.choice((empty, empty, os.path.join(empty, 'noperm'), os.path.join(empty, 'noprog'), os.path.join(empty, 'dir'))))
        mode = rng.choice(MODES)
        more = rng.choice(({}, {}, {'metadata': {'description': 'an EFT', 'author': 'é'}}, {'note': 's9'}))
        w.EFT('T', {'s%d' % j: rng.choice((None, None, {'tex': 'x', 'dB': 1})) for j in range(4)}, **copy.deepcopy(more))
        w.EFT('U', {'u0': None, 's0': None})
        nsec = rng.randint(2, 4)
        sec, texs, n = {}, [], 0
        for j in rng.sample(range(4), nsec):
            sec['s%d' % j] = {}
            for k in range(rng.randint(0 if problem is None else 1, 4)):
                m = rng.choice((None, {}, {'tex': 'O_{%d}^{%s}' % (n, i)}, {'tex': r'\bar s_%d\gamma b' % n, 'real': True}, {'real': True}, {'tex': ''},
                                {'tex': r'\varphi é %d\%% \text{x}_{%d}' % (n, i), 'note': 'x'}, {'tex': r'\text{with $m_b$}_{%d}^{%d}' % (n, i)},
                                {'tex': r'\#\&\_~O^{%d}_{%d}' % (n, i)}, {'tex': "O'%d" % n}, {'tex': 'O_{%d}' % n, 'real': True, 'note': 'y', 'dimension': 6}))
                if m and m.get('tex'):
                    texs.append(m['tex'])
                sec['s%d' % j][rng.choice(('C%d',) * 6 + ('κé_%d', 'c %d')) % n if rng.random() < .8 else 'X_%d%d' % (n, i)] = m
                n += 1
        names, eft, kw = [], 'T', {}
        exp = 'accept'
        if problem == 'eft':
            eft, exp = 'Unknown%d' % i, 'eft'
            names = [eft]
        elif problem == 'sector':
            for x in rng.sample(('bad sector', 'u0', 'S1', 's9'), rng.randint(1, 3)):
                sec[x] = {} if rng.random() < .5 else {'D%s' % x: None}
                names.append(x)
            exp = 'sector'
        elif problem == 'duplicate':
            for _ in range(rng.choice((1, 1, 2, 3))):
                a = rng.choice(sorted(sec))
                dup = rng.choice(sorted(sec[a]))
                for b in rng.sample(sorted(sec), rng.randint(2, len(sec))):
                    if b != a:
                        # same or different metadata in the other sectors
                        sec[b][dup] = rng.choice((None, {'tex': 'dup'}, copy.deepcopy(sec[a][dup])))
                        names.append(dup)
            if not names:
                a, b = sorted(sec)[:2]
                names = ['twice']
                sec[a]['twice'] = sec[b]['twice'] = rng.choice((None, {'tex': 'dup'}))
            exp = 'duplicate'
        elif problem == 'latex':
            a = rng.choice(sorted(sec))
            k = rng.choice(sorted(sec[a]))
            sec[a][k] = {'tex': rng.choice((r'\badcommand{x}', r'\badcommand', r'O_1 \badcommand x', r'\text{a $m_b$}\badcommand', r'100\%\badcommand{y}', '  \\badcommand{1}  ', 'O\n\\badcommand{1}',
                                         r'\mathcal{O}_{\badcommand}^{(1)}', r'\# \& \_ \badcommand', 'x' * 300 + r'\badcommand'))}
            if rng.random() < .3:
                sec[a][k]['real'] = True
            if latex:
                exp = 'latex'
                names = ['badcommand'] if mode in ('normal', 'binary', 'emergency', 'chatty', 'longlog') else []
        if problem is None and rng.random() < .06:
            sec, texs = {}, []
        items = list(sec.items())
        rng.shuffle(items)
        sec = dict(items)
        more = rng.choice(({}, {}, {'metadata': {'description': 'a basis with \\badcommand', 'author': 'é'}}, {'metadata': {}}, {'note': 's9'}))
        if rng.random() < .3:
            # distribute over parent and child
            cut = rng.randint(0, len(items))
            w.Basis(eft, 'parent%d' % i, dict(items[:cut]))
            ok, b = run.guard(lambda: w.Basis(eft, 'basis%d' % i, dict(items[cut:]), parent='parent%d' % i, **copy.deepcopy(more)), 'child basis', sec)
            if not ok:
                continue
        else:
            b = w.Basis(eft, 'basis%d' % i, sec, **copy.deepcopy(more))
        if rng.random() < .3:       # used before
            run.counts['used before'] += 1
            rng.choice((lambda: b.all_wcs, lambda: str(b), lambda: b.dump(fmt='yaml')))()
        if os.path.exists(rec):
            os.remove(rec)
        if not latex:
            run.observe('missing_latex', key=i)
        if i % 3 == 1:
            occupy(rec, t)
        validate(run, w, rng, b, exp, names, t, cwd, mode if latex else 'missing', dict(sectors=sec, eft=eft, problem=problem))
        if latex and exp == 'accept':
            d = open(rec, errors='replace').read() if os.path.exists(rec) else ''
            run.observe('document', key=i)
            miss = [x for x in texs if x not in d]
            structure(run, d, texs, sec)
            run.check(not miss, 'operators never seen by latex: %s' % miss[:4], dict(sectors=sec), kind='document')
        # validate again: same verdict
        if rng.random() < .2:
            validate(run, w, rng, b, exp, names, t, cwd, mode if latex else 'missing', dict(sectors=sec, eft=eft, problem=problem, again=True))
        # EFT redefined with fewer or more sectors
        if problem is None and rng.random() < .4:
            keep = [s for s in sec][1:]
            w.EFT('T', {s: None for s in keep})
            validate(run, w, rng, b, 'sector' if len(keep) < len(sec) else 'accept', [s for s in sec if s not in keep], t, cwd,
                     mode if latex else 'missing', dict(sectors=sec, eft_sectors=keep))
    os.environ['PATH'] = path
    # the full-size built-in bases, without and with latex
    for p in (empty, bindir):
        os.environ['PATH'] = p
        for e, b in (('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET', 'flavio'), ('WET-3', 'Bern')):
            validate(run, w, rng, w.Basis[e, b], 'accept', [], t, cwd, 'normal', dict(eft=e, basis=b))
    # large bases, with the invalid code anywhere
    os.environ['PATH'] = bindir
    for i in range(run.n(12, 60)):
        n = rng.choice((2000, 6000, 20000))
        bad = rng.choice((0, 1, n // 2, n - 2, n - 1, rng.randrange(n), None))
        sec = {s: {'%s_%d' % (s, k): {'tex': r'\badcommand{%d}' % k if j * (n // 4) + k == bad else r'\bar q_{%d}\gamma_\mu q' % k} for k in range(n // 4)} for j, s in enumerate(('s0', 's1', 's2', 's3'))}
        w.EFT('T', {'s%d' % j: None for j in range(4)})
        b = w.Basis('T', 'large', sec)
        if i % 4 == 3:
            dup = rng.choice(sorted(sec['s0']))
            sec['s3'][dup] = None
            b = w.Basis('T', 'large', sec)
            validate(run, w, rng, b, 'duplicate', [dup], t, cwd, 'normal', dict(large=n, duplicate=dup))
            continue
        validate(run, w, rng, b, 'accept' if bad is None else 'latex', [] if bad is None else ['badcommand'], t, cwd, 'normal', dict(large=n, bad=bad))
    threads(run, w, rng, rec)
    os.environ['PATH'] = path
