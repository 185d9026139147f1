"""C23: running QCD coupling and masses."""
import math
from vlib import env, refqcd

FN = ('alpha_s', 'm_b', 'm_c', 'm_s')
ALLOWED = {'alpha_s': (3, 4, 5, 6), 'm_b': (3, 4, 5, 6), 'm_c': (3, 4, 5), 'm_s': (3, 4, 5)}
INIT = {'m_b': (4.18, 4.2, 4.5, 4.8, 4.0), 'm_c': (1.27, 1.3, 1.28, 1.25), 'm_s': (0.095, 0.1, 0.09)}

WIDE = {'m_b': (3., 7.), 'm_c': (1.15, 2.), 'm_s': (.01, 1.)}


def run(run):
    w = env.load(register=False)
    from wcxf.util import qcd
    rng = run.rng
    run.rule = 'every returned number compared with the three-loop reference for exactly these arguments'
    special = (91, 90, 92, 4, 5, 80, 2, 2.0, 1.3, 4.18, 4.2, 4.8, 91.1876, 100, 120.0, 160., 170, 170., 246.22, 1000)

    def call(fn, a, kw):
        """one monitored call"""
        f = getattr(qcd, fn)
        if fn == 'alpha_s':
            mu, nf = a
            exp = refqcd.alpha_s(float(mu), nf, kw.get('alphasMZ', 0.1185))
        else:
            m0, mu, nf = a
            exp = getattr(refqcd, fn)(m0, float(mu), nf, kw.get('alphasMZ', 0.1185))
        ok, g = run.guard(lambda: f(*a, **kw), fn, dict(args=a, kw=kw))
        if not ok:
            return None
        run.observe(fn, key=(a, tuple(kw.items())), sample=dict(fn=fn, args=a, kw=kw, value=g))
        run.check(math.isfinite(g) and g > 0 and abs(g - exp) <= 1e-8 * abs(exp),
                  '%s%s %s = %r, three-loop running gives %r' % (fn, a, kw, g, exp), dict(args=a, kw=kw), kind=fn + str(a[-1]))
        return g

    def randargs(fn, wide=False):
        nf = rng.choice(ALLOWED[fn])
        mu = rng.choice(special) if rng.random() < .4 else 10**rng.uniform(math.log10(1.25 if nf == 3 else 1.6), rng.choice((3.5, 3.5, 6)))
        if rng.random() < .15:      # just off a special scale
            mu = rng.choice(special) * (1 + rng.choice((-1, 1)) * 10.**-rng.randint(2, 12))
        if rng.random() < .12:      # integers
            mu = rng.randint(2, 200)
        if rng.random() < .08:
            mu = rng.choice((1, 1., 0.9, rng.uniform(.8, 1.3)))
        elif mu < 1.6 and nf >= 5:
            mu = 4.8
        kw = {} if rng.random() < .4 else {'alphasMZ': rng.choice((0.1185, 0.118, 0.1181, 0.115, 0.122, rng.uniform(.112, .124)))}
        if wide and mu > 3 and rng.random() < .2:
            # couplings far from the usual ones, very large scales
            kw = {'alphasMZ': rng.choice((.09, .132, rng.uniform(.08, .112), rng.uniform(.124, .132)))}
            if rng.random() < .5:
                mu = 10**rng.uniform(4, 10)
        if fn == 'alpha_s':
            return (mu, nf), kw
        if rng.random() < .05:
            s0 = 2. if fn == 'm_s' else INIT[fn][0]
            return (INIT[fn][0], s0 * (1 + rng.choice((-1, 1)) * 10.**-rng.randint(2, 10)), {'m_b': 5, 'm_c': 4, 'm_s': 3}[fn]), kw
        m0 = rng.choice(INIT[fn]) if rng.random() < .6 else round(rng.uniform(min(INIT[fn]), max(INIT[fn])), 6)
        if wide and rng.random() < .3 and kw.get('alphasMZ', .1) <= .125:      # masses far from the usual ones
            lo, hi = WIDE[fn]
            m0 = rng.choice((rng.uniform(lo, hi), rng.uniform(lo, hi), lo, hi, max(1, int(hi))))
        return (m0, mu, nf), kw
    threads(run, qcd, rng, randargs)
    log = []
    for i in range(run.n(6000, 60000)):
        fn = rng.choice(FN)
        a, kw = randargs(fn, True)
        g = call(fn, a, kw)
        log.append((fn, a, kw, g))
    # same calls, other order, interleaved: caches must not matter; positional alpha_s too
    rng.shuffle(log)
    for fn, a, kw, g in log[:run.n(1500, 15000)]:
        f = getattr(qcd, fn)
        ok, h = run.guard(lambda: f(*(a + tuple(kw.values()))), fn, a)
        run.observe('replayed', key=(fn, a))
        run.check(ok and (h == g or g is None), '%s%s %s: %r now, %r before' % (fn, a, kw, h, g), None, kind='replay')
    # initial conditions
    for i in range(run.n(200, 2000)):
        as0 = rng.uniform(.11, .125)
        run.observe('initial', key=i)
        for what, fn, a, e in (('alpha_s', qcd.alpha_s, (91.1876, 5, as0), as0),
                               ('m_b', qcd.m_b, (4.18 + .1 * rng.random(),) * 2 + (5, as0), None),
                               ('m_c', qcd.m_c, (1.25 + .1 * rng.random(),) * 2 + (4, as0), None),
                               ('m_s', qcd.m_s, (.09 + .01 * rng.random(), 2, 3, as0), None)):
            if what in ('m_b', 'm_c'):
                a = (a[0], a[0], a[2], a[3])
            e = e if e is not None else a[0]
            ok, g = run.guard(lambda: fn(*a), what + ' at its initial scale', a)
            run.check(ok and abs(g - e) <= 1e-12 * e, '%s%s = %r is not its initial value' % (what, a, g), a, kind='init' + what)
    # monotonic in the scale, increasing with the initial value
    for i in range(run.n(300, 3000)):
        fn = rng.choice(FN)
        (a, kw) = randargs(fn)
        f = getattr(qcd, fn)
        mu = float(a[-2])
        hi = mu * rng.uniform(1.05, 3)
        b = a[:-2] + (hi, a[-1])
        ok, v = run.guard(lambda: (f(*a, **kw), f(*b, **kw)), fn, (a, b))
        if ok:
            run.observe('monotonic', key=(fn, a))
            run.check(v[0] > v[1] > 0, '%s does not decrease from scale %s to %s: %s' % (fn, mu, hi, v), (a, b, kw), kind='mono' + fn)
        if fn != 'alpha_s' and ok:
            c = (a[0] * 1.01,) + a[1:]
            ok, x = run.guard(lambda: f(*c, **kw), fn, c)
            run.check(ok and x > v[0], '%s does not grow with its initial value' % fn, (a, c, kw), kind='grow' + fn)
    # independent ODE integration in the five-flavour theory
    for i in range(run.n(60, 600)):
        as0 = rng.uniform(.112, .124)
        mu = rng.uniform(4, 2000)
        ok, g = run.guard(lambda: qcd.alpha_s(mu, 5, as0), 'alpha_s', mu)
        e = refqcd.ode_alpha_s(mu, 5, as0, 91.1876)
        run.observe('ode', key=i)
        run.check(ok and abs(g - e) <= 2e-6 * e, 'alpha_s(%r, 5, %r) = %r, integrating the beta function gives %r' % (mu, as0, g, e), None, kind='ode')
    # errors
    for fn in FN:
        f = getattr(qcd, fn)
        m0 = () if fn == 'alpha_s' else (INIT[fn][0],)
        for nf in (3, 4, 5, 6, 2, 7, 0, -1):
            for mu in (0, -1, -91.1876, 0., -1e-3, 50., 91.0):
                bad = mu <= 0 or nf not in ALLOWED[fn]
                if not bad:
                    continue
                for rep in range(2):
                    try:
                        g = f(*(m0 + (mu, nf)))
                        run.violate('%s at scale %s with %s flavours returned %r instead of an error' % (fn, mu, nf, g), None, kind='err' + fn)
                    except ValueError:
                        pass
                    except Exception as e:
                        run.violate('%s at scale %s with %s flavours raised %r' % (fn, mu, nf, e), None, kind='errt' + fn)
                run.observe('error', key=(fn, mu, nf))
    run.floor(concurrent=100, alpha_s=800, m_b=800, m_c=800, m_s=800, replayed=1000, ode=50, error=100)
    run.assumptions.append('decoupling relations and mass anomalous dimension are those of the rundec dependency')


def threads(run, qcd, rng, randargs):
    """The functions called from three threads that give way to each other between lines."""
    import sys
    import threading
    import time
    files = {getattr(getattr(qcd, f), '__wrapped__', getattr(qcd, f)).__code__.co_filename for f in FN if hasattr(getattr(getattr(qcd, f), '__wrapped__', getattr(qcd, f)), '__code__')} | {qcd.__file__}

    def tracer(frame, event, arg):
        if frame.f_code.co_filename not in files:
            return None
        run.counts['yields'] += 1
        time.sleep(0)
        return tracer
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for rnd in range(run.n(6, 60)):
            jobs = []
            for t in range(3):
                l = []
                for i in range(25):
                    fn = rng.choice(FN)
                    a, kw = randargs(fn)
                    kw = {'alphasMZ': rng.uniform(.114, .122)}      # not in any cache
                    if fn != 'alpha_s' and a[1] < 1.3 or fn == 'alpha_s' and a[0] < 1.3:
                        continue
                    exp = refqcd.alpha_s(float(a[0]), a[1], kw['alphasMZ']) if fn == 'alpha_s' else getattr(refqcd, fn)(a[0], float(a[1]), a[2], kw['alphasMZ'])
                    l.append((fn, a, kw, exp))
                jobs.append(l)
            out = [[] for _ in jobs]

            def work(n):
                sys.settrace(tracer)
                try:
                    for fn, a, kw, exp in jobs[n]:
                        try:
                            out[n].append(getattr(qcd, fn)(*a, **kw))
                        except Exception as e:
                            out[n].append(e)
                finally:
                    sys.settrace(None)
            ts = [threading.Thread(target=work, args=(n,)) for n in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for l, o in zip(jobs, out):
                for (fn, a, kw, exp), g in zip(l, o):
                    run.observe('concurrent', key=(fn, a, tuple(kw.items())))
                    run.check(not isinstance(g, Exception) and abs(g - exp) <= 1e-8 * abs(exp),
                              '%s%s %s = %r while other computations run, three-loop running gives %r' % (fn, a, kw, g, exp), dict(args=a, kw=kw), kind='thread' + fn)
    finally:
        sys.setswitchinterval(old)
