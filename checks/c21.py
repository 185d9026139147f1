"""C21: FlavorKit <-> JMS."""
from vlib import env, gen, drive, monitor, oracle, ref

FJ, JF, FF = ('WET', 'FlavorKit', 'JMS'), ('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'flavio')


def run(run):
    w = env.load()
    rng = run.rng
    fk = gen.keys_of('WET', 'FlavorKit')
    jms = gen.keys_of('WET', 'JMS')
    with monitor.Tap(w).subscribe(oracle.route_oracle(run, {FJ, JF, FF}, 'entry')):
        # every table entry alone, both directions, and the way back
        p = gen.params(rng, 'all')
        for k in fk:
            C = {k: complex(rng.gauss(0, 1), rng.gauss(0, 1))}
            lab = ref.flavorkit_target(k, ref.DEFAULTS)[0]
            if jms.get(lab):
                C = {k: C[k].real}       # self-conjugate operator
            r = drive.call(run, w, rng, FJ, C, 91., p)
            if r is None:
                continue
            try:
                b = gen.apply(r, JF, p)
            except Exception:
                continue          # reported by the oracle
            run.observe('roundtrip', key=k)
            v, g = C[k], b.dict.get(k, 0)
            run.check(abs(g - v) <= 1e-12 * abs(v) and set(b.dict) == {k},
                      'FlavorKit -> JMS -> FlavorKit changes %s: %s -> %s' % (k, v, b.dict), C, kind='rt')
        for k in (jms if run.thorough else rng.sample(list(jms), 300)):
            drive.call(run, w, rng, JF, gen.coeffs(rng, {k: jms[k]}, 'dense', 0, 1), 91., p)
    # dense round trip: keeps everything, mixes nothing
    for i in range(run.n(20, 200)):
        C = gen.route_input(rng, FJ, gen.STYLES[i % len(gen.STYLES)])
        for k in list(C):
            if jms.get(ref.flavorkit_target(k, ref.DEFAULTS)[0]):
                C[k] = complex(C[k]).real or 1.
        p = gen.params(rng)
        ok, b = run.guard(lambda: gen.apply(gen.apply(gen.make(w, rng, FJ, C, 91.), FJ, p), JF, p), 'FlavorKit round trip', C)
        if ok:
            bad = [k for k in set(C) | set(b.dict) if abs(C.get(k, 0) - b.dict.get(k, 0)) > 1e-12 * abs(C.get(k, 0))]
            run.observe('dense', key=i)
            run.check(not bad, 'FlavorKit -> JMS -> FlavorKit changes %s' % bad[:5], lambda: C, kind='dense')
    # unknown FlavorKit names are refused
    for i in range(run.n(80, 400)):
        k = rng.choice(list(fk))
        n, ind = k.split('_')
        bad = rng.choice([n + '_9999', 'XX_' + ind, n, n + 'X_' + ind, 'foo', n + '_' + ind + '1', ''.join(['K2R_', rng.choice('123'), '4'])])
        C = gen.coeffs(rng, fk, 'few')
        V = gen.values(rng, C)
        # also when the file gives it as zero
        V[bad] = rng.choice((1e-3, 1e-3, {'Re': 0, 'Im': 2.}, 1e-30, rng.choice(gen.ZEROS)))
        try:
            r = gen.apply(w.WC('WET', 'FlavorKit', 91., V), FJ)
            run.violate('unknown FlavorKit coefficient %r accepted' % bad, dict(values=V, result=r.dict), kind='unknown')
        except ValueError:
            pass
        except Exception as e:
            run.violate('unknown FlavorKit coefficient %r: %s instead of ValueError' % (bad, type(e).__name__), V, kind='unknown2')
        run.observe('unknown', key=bad)
    # unknown JMS names are left out
    for i in range(run.n(30, 200)):
        C = gen.coeffs(rng, jms, 'few')
        ref_ok, a = run.guard(lambda: gen.apply(gen.make(w, rng, JF, C, 91.), JF), 'JMS -> FlavorKit', C)
        D = dict(C)
        D[rng.choice(['foo', 'VddLL_9999', 'SuddRR_1111', 'egamma_11', 'egamma_33'])] = 2e-3
        ok, b = run.guard(lambda: gen.apply(gen.make(w, rng, JF, D, 91.), JF), 'JMS -> FlavorKit with unknown name', D)
        if ok and ref_ok:
            C2 = {k: v for k, v in C.items() if k not in ('egamma_11', 'egamma_22', 'egamma_33')}
            run.observe('leftout', key=sorted(D))
            run.check(a.dict == b.dict, 'unknown JMS coefficient changes the result', dict(C=D, a=a.dict, b=b.dict))
    drive.standard(run, w, [FJ, JF, FF], run.n(3, 12), run.n(100, 900), 25, 400)
    run.floor(entry=900, roundtrip=800, unknown=20, leftout=20)
