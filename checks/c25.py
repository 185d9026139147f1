"""C25: SMEFTsim parameter cards."""
import cmath
import copy
import io
import json
import math
import os
import shutil
import tempfile
import yaml
from vlib import core, env, gen, cmd, card, doc

W = 80.387


def frozen():
    with open(os.path.join(core.ROOT, 'vlib', 'smeftsim.json')) as f:
        return json.load(f)


def near(got, exp, rel=6e-7):
    return abs(got - exp) <= rel * abs(exp) + 1e-300


def phase_ok(got, z):
    d = (got - cmath.phase(z)) % (2 * math.pi)
    return min(d, 2 * math.pi - d) <= 4e-6


def judge_entries(run, entries, F, C, mset, lam, scheme, wit, what):
    """entries: {(block, ids): value}; the frozen numbering says which label each has."""
    seen = {}
    exp_ids = set()
    for b, rows in F['ids' + mset].items():
        for ids, label in rows:
            exp_ids.add((b.upper(), ' '.join(map(str, ids))))
    if mset == 'A' and scheme == 'mw':
        exp_ids.add(('FRBLOCK', '1475'))
    have = set(entries)
    run.check(have == exp_ids, '%s: entries missing %s, superfluous %s' % (what, sorted(exp_ids - have)[:5], sorted(have - exp_ids)[:5]), wit, kind='ids' + what)
    keys = card.exported()
    for b, rows in F['ids' + mset].items():
        for ids, label in rows:
            k = (b.upper(), ' '.join(map(str, ids)))
            if k not in entries:
                continue
            value(run, entries[k], label, keys, C, lam, wit, what, seen)
    if mset == 'A' and scheme == 'mw' and ('FRBLOCK', '1475') in entries:
        run.check(near(entries['FRBLOCK', '1475'], W), '%s: W mass in the card is %r' % (what, entries['FRBLOCK', '1475']), wit, kind='mw')
    return seen


def value(run, got, label, keys, C, lam, wit, what, seen):
    key, conj, part = card.meaning(label)
    run.counts['entries'] += 1
    if key == 'cutoff':
        run.check(near(got, lam), '%s: cutoff is %r instead of %r' % (what, got, lam), wit, kind='cutoff')
        return
    if (key, part) in seen:
        run.violate('%s: %s occurs twice (%s)' % (what, key, label), wit, kind='twice')
    seen[key, part] = label
    z = complex(C.get(key, 0))
    if conj:
        z = z.conjugate()
    if keys[key]:
        run.check(part == 'Abs' and near(got, z.real * lam**2), '%s: %s (real coefficient %s) is %r, expected %r' % (what, label, key, got, z.real * lam**2),
                  wit, kind='real' + what)
    elif part == 'Abs':
        run.check(near(got, abs(z) * lam**2), '%s: %s (modulus of %s) is %r, expected %r' % (what, label, key, got, abs(z) * lam**2), wit, kind='abs' + what)
    elif z != 0:
        run.check(phase_ok(got, z), '%s: %s (phase of %s) is %r, expected %r' % (what, label, key, got, cmath.phase(z)), wit, kind='ph' + what)
    else:
        run.check(math.isfinite(got), '%s: %s is %r' % (what, label, got), wit, kind='fin')


def structure(run, c, F, mset, wit):
    """Card structure -> {(block, ids): value}, labels checked against the numbering."""
    lab = {}
    for b, rows in F['ids' + mset].items():
        for ids, label in rows:
            lab[b.upper(), ' '.join(map(str, ids))] = card.meaning(label)
    out = {}
    for b, blk in c['Block'].items():
        for e in blk['values']:
            nums = [x for x in e if not (isinstance(x, str) and x.lstrip().startswith('#'))]
            k = (b.upper(), ' '.join(str(x) for x in nums[:-1]))
            if k in out:
                run.violate('entry %s occurs twice' % (k,), wit, kind='twice')
            out[k] = float(nums[-1])
            if k in lab and len(nums) < len(e):
                run.check(card.meaning(e[-1]) == lab[k], 'entry %s carries the label %r' % (k, e[-1]), wit, kind='label')
    return out


def run(run):
    w = env.load()
    rng = run.rng
    run.rule = ('every entry of every card compared with the coefficient its label denotes; card text read back with an independent '
                'reader and pylha')
    F = frozen()
    import wcxf.cli
    from wcxf.converters.smeftsim import initialize_smeftsim_card, smeftsim_card_fill, smeftsim_card_text
    keys = card.exported()
    allkeys = gen.keys_of('SMEFT', 'Warsaw mass')
    # the frozen numbering itself must denote every coefficient exactly once
    for s in 'AB':
        m = [card.meaning(l) for rows in F['ids' + s].values() for _, l in rows]
        need = [(k, p) for k, r in keys.items() for p in (('Abs',) if r else ('Abs', 'Ph'))]
        got = [(x[0], x[2]) for x in m if x and x[0] not in ('cutoff', 'MW')]
        assert sorted(need) == sorted(got) and sum(x is not None and x[0] == 'cutoff' for x in m) == 1, s
    n = 0
    for i in range(run.n(44, 300)):
        for s in 'AB':
            st = gen.STYLES[i % len(gen.STYLES)]
            C = gen.coeffs(rng, allkeys, st, *rng.choice(((-9, -3), (-12, -6), (-1, 1), (-30, -20))))
            if i % 5 == 1:     # purely real values for complex coefficients, of both signs
                C = {k: complex(v).real or -1e-7 for k, v in C.items()}
            lam = rng.choice((1000., 1000, 1., 246.22, 5000., 10**rng.uniform(0, 5), 10**rng.uniform(5, 9)))
            if i % 22 == 9:
                C = {}
            sch = rng.choice(('alpha', 'mw'))
            fill(run, w, rng, F, C, s, lam, sch, initialize_smeftsim_card, smeftsim_card_fill)
    # every coefficient in every quadrant and on every half axis
    quad = [(1, 1), (1, -1), (-1, 1), (-1, -1), (1, 0), (-1, 0), (0, 1), (0, -1)]
    off = {k: rng.randrange(8) for k in allkeys}
    for i in range(8 * run.n(1, 4)):
        for s in 'AB':
            m = 10.**rng.choice((-7, -7, -4, 0, -15))
            C = {}
            for k, r in allkeys.items():
                a, b = quad[(off[k] + i) % 8]
                v = complex(a * m * rng.uniform(.2, 5), b * m * rng.uniform(.2, 5))
                C[k] = (v.real or v.imag) if r else v.real if v.imag == 0 else v
            fill(run, w, rng, F, C, s, rng.choice((1000., 3500., 1.)), ('alpha', 'mw')[i % 2], initialize_smeftsim_card, smeftsim_card_fill, 'quadrants')
    # leak probes: one coefficient at a time
    names = list(allkeys)
    rng.shuffle(names)
    for j, k in enumerate(names[:run.n(60, len(names))]):
        fill(run, w, rng, F, {k: -1.5e-6 if allkeys[k] else rng.choice((complex(-1e-6, 2e-6), -1e-6, -3e-6j))}, 'AB'[j % 2], 1000., ('alpha', 'mw')[j // 2 % 2],
             initialize_smeftsim_card, smeftsim_card_fill, 'probe')
    texts(run, F, smeftsim_card_text)
    scratch = tempfile.mkdtemp(prefix='verif_card_')
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        for i in range(run.n(22, 160)):
            command(run, w, rng, F, scratch, i, wcxf.cli.smeftsim, allkeys)
        refusals(run, w, rng, scratch, wcxf.cli.smeftsim)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    run.floor(card=80, probe=60, text=4, command=8, refused=2)


def fill(run, w, rng, F, C, s, lam, sch, init, fillf, kind='card'):
    vals = gen.add_zeros(rng, gen.keys_of('SMEFT', 'Warsaw mass'), gen.values(rng, C)) if C else {}
    wc = w.WC('SMEFT', 'Warsaw mass', rng.choice((1000., 1000, 91.1876, 3500., 160, 1e5)), copy.deepcopy(vals))
    snap = copy.deepcopy(doc.public(wc))
    wit = dict(values=vals, set=s, cutoff=lam, scheme=sch)
    ok, c = run.guard(lambda: fillf(init(s), wc, s, lam, sch), 'filling a card', wit)
    if not ok:
        return
    run.observe(kind, key=(s, sch, lam, len(C), repr(sorted(C))[:60]), sample=dict(set=s, cutoff=lam, scheme=sch, n=len(C)))
    ok, ent = run.guard(lambda: structure(run, c, F, s, wit), 'card structure', wit)
    if ok:
        judge_entries(run, ent, F, C, s, lam, sch, wit, 'set ' + s)
    run.check(doc.same(doc.public(wc), snap), 'filling a card changes the file object', wit, kind='mod')
    run.check(wc.dict == {k: doc_read(v) for k, v in vals.items()}, 'filling a card changes the numbers of the file object', wit, kind='mod')


def doc_read(v):
    from vlib import monitor
    return monitor.read(v)


def texts(run, F, textf):
    for s in 'AB':
        for sch in ('alpha', 'mw'):
            for rep in range(2):
                ok, t = run.guard(lambda: textf(s, sch), 'card text', (s, sch))
                if not ok:
                    continue
                run.observe('text', key=(s, sch))
                try:
                    got = card.parse('\n'.join(t))
                except (ValueError, IndexError) as e:
                    run.violate('text of the card (set %s, %s scheme) cannot be read: %s' % (s, sch, e), dict(text='\n'.join(t)), kind='textparse')
                    continue
                smpart(run, got, F, s, sch, dict(set=s, scheme=sch), 'text')


def smpart(run, got, F, s, sch, wit, what):
    exp = F['sm' + s + sch]
    for b in exp:
        g = got.get(b, {})
        run.check(set(g) == set(exp[b]), '%s: block %s has entries %s, expected %s' % (what, b, sorted(g)[:20], sorted(exp[b])[:20]), wit, kind='smids' + b)
        for k in exp[b]:
            if k in g:
                run.counts['sm_entries'] += 1
                run.check(near(g[k], exp[b][k], 2e-7), '%s: %s %s is %r, expected %r (%s scheme)' % (what, b, k, g[k], exp[b][k], sch), wit, kind='sm' + b)
    if sch == 'mw':
        m = got.get('MASS', {})
        for k in ('24', '251', '9000003', '9000004'):
            run.check(near(m.get(k, 0), W, 1e-6), '%s: mass of %s is not the input W mass' % (what, k), wit, kind='smw')
        run.check('1' not in got.get('SMINPUTS', {}), '%s: alpha is an input of the mw scheme' % what, wit, kind='smw')


REPLIES = ['\n', 'n\n', 'iI\n', 'x\n', ' i\n', 'no\n', 'i \n', 'q\n', 'ignore\n', 'y\n', '1\n', 'II\n', 'j\n', 'i\ti\n']


def refusals(run, w, rng, scratch, entry):
    """Any answer but i or I, or none, leaves no card."""
    out = os.path.join(scratch, 'refused.dat')
    for e, b in (('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('WET', 'JMS'), ('WET-4', 'flavio')):
        inp = cmd.write(os.path.join(scratch, 'refused_in'), json.dumps(dict(eft=e, basis=b, scale=1000., values={})))
        for reply in REPLIES + ['']:
            argv = ['wcxf2smeftsim', inp, '--output', out]
            if os.path.exists(out):
                os.remove(out)
            cmd.inprocess(entry, argv, reply)
            run.observe('refused', key=(e, b, reply))
            run.check(not os.path.exists(out), 'a card is written for a file in basis %s although the user answered %r' % (b, reply), dict(argv=argv, reply=reply), kind='insist')


def command(run, w, rng, F, scratch, i, entry, allkeys):
    C = gen.coeffs(rng, allkeys, rng.choice(gen.STYLES), -9, -5)
    vals = gen.values(rng, C)
    basis = 'Warsaw mass'
    mode = rng.choice(('ok',) * 6 + ('key', 'basis', 'other', 'insist'))
    if i < 4:
        mode = ('key', 'other', 'insist', 'basis')[i]
    d = dict(eft='SMEFT', basis=basis, scale=rng.choice((1000., 1000., 160, 91.1876, 5000.)), values=dict(vals))
    if mode == 'key':
        d['values']['nope_11'] = 1e-6
    elif mode == 'basis':
        d['basis'] = 'unknown'
    elif mode in ('other', 'insist'):
        d['basis'] = rng.choice(('Warsaw', 'Warsaw up'))
        kk = gen.keys_of('SMEFT', d['basis'])
        C = {k: v for k, v in C.items() if k in kk}
        d['values'] = {k: v for k, v in d['values'].items() if k in kk}
        if mode == 'other' and rng.random() < .3:
            d = dict(eft='WET', basis='JMS', scale=5., values={})
    text = json.dumps(d) if rng.random() < .5 else yaml.safe_dump(doc.plain(d))
    inp = cmd.write(os.path.join(scratch, 'in%d' % i), text)
    argv = ['wcxf2smeftsim', inp]
    out = os.path.join(scratch, 'wcxf2smeftsim_param_card.dat')
    if rng.random() < .6:
        out = os.path.join(scratch, 'o%d.dat' % i)
        argv += ['--output', out]
    s, sch, lam = 'A', 'alpha', 1000.
    if rng.random() < .7:
        s = rng.choice('AB')
        argv += ['--model-set', s]
    if rng.random() < .7:
        sch = rng.choice(('alpha', 'mw'))
        argv += ['--input-scheme', sch]
    if rng.random() < .7:
        lam = rng.choice((500., 2000., 1e4, 91.2))
        argv += ['--cutoff-scale', str(lam)]
    rng.random() < .3 and argv.append(argv.pop(1))
    if argv[-1] != inp and rng.random() < .4:
        # an option without a value means its default
        bare = [o for o in ('--output', '--model-set', '--input-scheme', '--cutoff-scale') if o not in argv]
        argv += rng.sample(bare, min(len(bare), rng.choice((1, 1, 2))))
        run.counts['bare option'] += bool(bare)
    old = None
    if os.path.exists(out):
        os.remove(out)
    if rng.random() < .6:
        old = rng.choice(('an older card\n', '# x\n' * 20000, 'Block OLD\n 1 1.0e+00 # left over\n' * 20000, '    9999 1.0 # left over\n' * 30000))
        cmd.write(out, old)
        run.counts['card existed'] += 1
    reply = {'other': rng.choice(('n\n', '\n', 'x\n', 'no\n', 'q\n')), 'insist': rng.choice('iI') + '\n'}.get(mode, '')
    wit = dict(argv=argv, input=text[:4000], mode=mode, reply=reply)
    r = cmd.inprocess(entry, argv, reply)
    if mode in ('key', 'basis', 'other'):
        run.observe('refused', key=(mode, i))
        run.check(cmd.readtext(out) == old, 'a card is written for an input that is not acceptable (%s)' % mode, wit, kind='refused')
        if mode != 'other':
            run.check(not r.ok, 'wcxf2smeftsim reports success for an invalid input (%s)' % mode, wit, kind='refstatus')
        return
    if not run.check(r.ok, 'wcxf2smeftsim failed: status %s, %r' % (r.status, r.error), wit, kind='cmd'):
        return
    t = cmd.readtext(out)
    if not run.check(t is not None, 'wcxf2smeftsim wrote no card to %s' % os.path.basename(out), wit, kind='nocard'):
        return
    run.observe('command', key=(s, sch, lam, i), sample=dict(argv=argv[1:], bytes=len(t)))
    run.check('left over' not in t and 'an older card' not in t, 'the written card contains remains of the file it replaces', wit, kind='remains')
    try:
        got = card.parse(t)
    except Exception as e:
        run.violate('written card is not readable: %r' % e, dict(wit, card=t[:3000]), kind='unreadable')
        return
    import pylha
    try:
        pylha.load(io.StringIO(t))
    except Exception as e:
        run.violate('written card cannot be read by pylha: %r' % e, wit, kind='pylha')
    blocks = {b.upper() for b in F['ids' + s]}
    judge_entries(run, {(b, k): v for b in got if b in blocks for k, v in got[b].items()}, F, C, s, lam, sch, wit, 'written card set ' + s)
    smpart(run, {b: v for b, v in got.items() if b not in blocks}, F, s, sch, wit, 'written card')
    extra = set(got) - blocks - set(F['sm' + s + sch])
    run.check(not extra, 'written card contains further blocks %s' % sorted(extra), wit, kind='blocks')
