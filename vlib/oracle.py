"""Expected result of every built-in route, from the reference models.

expected(route, C, scale, params) -> {key: (value, tolerance)}; keys not
listed are expected to be absent or zero."""
import functools

from . import bases as B
from . import gen
from . import ref

RT = 1e-9


def _pk(p):
    return tuple(sorted(p.items()))


@functools.lru_cache(64)
def _linmap(which, scale, pk):
    p = dict(pk)
    return getattr(ref, which)(scale, p)


LINEAR = {('JMS', 'flavio'): 'jms_to_flavio', ('JMS', 'Bern'): 'jms_to_bern',
          ('Bern', 'flavio'): 'bern_to_flavio', ('flavio', 'Bern'): 'flavio_to_bern',
          ('JMS', 'EOS'): 'jms_to_eos', ('JMS', 'formflavor'): 'jms_to_formflavor'}


def linear(src, dst, C, scale, p):
    m = _linmap(LINEAR[src, dst], float(scale), _pk(p))
    out = {}
    for k, f in m.items():
        v, a = f.eval(C)
        if a:
            out[k] = (v, RT * a)
    return out


def _rot(C, p, up):
    o, s = ref.warsaw_rotated(C, p, up)
    return {k: (v, RT * abs(s[k])) for k, v in o.items()}


def _mass(C, p):
    o, s = ref.warsaw_mass(C, p)
    return {k: (v, RT * abs(s[k])) for k, v in o.items()}


def fk_to_jms(C, p):
    o = {}
    for k, v in C.items():
        lab, conj, f = ref.flavorkit_target(k, p)
        if conj:
            v = complex(v).conjugate()
        o[lab] = (f * v, RT * abs(f * v))
    return o


@functools.lru_cache(None)
def _fk_all():
    return list(gen.keys_of('WET', 'FlavorKit'))


def jms_to_fk(C, p):
    o = {}
    for k in _fk_all():
        lab, conj, f = ref.flavorkit_target(k, p)
        v = C.get(lab, 0)
        if v:
            v = complex(v).conjugate() / f if conj else v / f
            o[k] = (v, RT * abs(v))
    return o


def size(C):
    return max((abs(v) for v in C.values()), default=0)


def jms_matched(C, p, up):
    o = ref.match_jms(C, p, up)
    # subtraction of the SM part: absolute rounding floor of GF size quantities
    return {k: (v, 1e-8 * abs(v) + 2e-18 + 1e-11 * size(C)) for k, v in o.items()}


def expected(route, C, scale, params):
    p = ref.merged(params)
    if len(route) == 3:
        eft, a, b = route
        if (a, b) in LINEAR:
            return linear(a, b, C, scale, p)
        if eft == 'SMEFT':
            if b == 'Warsaw mass':
                return _mass(C, p)
            return _rot(C, p, b == 'Warsaw up')
        if (a, b) == ('FlavorKit', 'JMS'):
            return fk_to_jms(C, p)
        if (a, b) == ('JMS', 'FlavorKit'):
            return jms_to_fk(C, p)
        if (a, b) == ('FlavorKit', 'flavio'):
            j = {k: v for k, (v, t) in fk_to_jms(C, p).items()}
            return linear('JMS', 'flavio', j, scale, p)
    else:
        e1, a, e2, b = route
        if e1 == 'SMEFT':
            j = jms_matched(C, p, a == 'Warsaw up')
            if b == 'JMS':
                return j
            m = _linmap(LINEAR['JMS', b], float(scale), _pk(p))
            out = {}
            jc = {k: v for k, (v, t) in j.items()}
            for k, f in m.items():
                v, s = f.eval(jc)
                tol = sum(c * j[kk][1] for (kk, cc), c in f.a.items() if kk in j)
                out[k] = (v, RT * s + tol)
            return out
        keys = gen.keys_of(e2, b)
        return {k: (v, 0) for k, v in C.items() if k in keys}
    raise KeyError(route)


def compare(got, exp, extra_ok=0.0):
    """List of (key, got, expected) that disagree; absent = 0."""
    bad = []
    for k, (v, tol) in exp.items():
        g = got.get(k, 0)
        if not abs(g - v) <= tol:
            bad.append((k, complex(g), complex(v), tol))
    for k, g in got.items():
        if k not in exp and not abs(g) <= extra_ok:
            bad.append((k, complex(g), 0, extra_ok))
    return bad


def route_oracle(run, routes=None, kind='call'):
    """Subscriber comparing every event on `routes` with the reference."""
    def sub(ev):
        if routes is not None and ev.route not in routes:
            return
        name = gen.rname(ev.route)
        if ev.error is not None:
            run.violate('%s raised %s: %s' % (name, type(ev.error).__name__, str(ev.error)[:150]),
                        dict(coefficients=ev.C, scale=ev.scale, parameters=ev.params),
                        kind='raise' + name + type(ev.error).__name__)
            return
        exp = expected(ev.route, ev.C, ev.scale, ev.params)
        bad = compare(ev.result.dict, exp)
        run.observe(kind, key=(name, len(ev.C), ev.scale, sorted(ev.C)[:1], sorted((ev.params or {}))),
                    nontrivial=bool(ev.C), sample=dict(route=name, n_in=len(ev.C), n_out=len(ev.result.values),
                                                       scale=ev.scale, parameters=ev.params))
        run.counts['coefficients'] += len(exp)
        if bad:
            bad.sort(key=lambda b: -abs(b[1] - b[2]))
            k, g, e, t = bad[0]
            run.violate('%s: %s = %.8g%+.8gj, expected %.8g%+.8gj (%d coefficients differ)' % (
                name, k, g.real, g.imag, complex(e).real, complex(e).imag, len(bad)),
                dict(coefficients=ev.C, scale=ev.scale, parameters=ev.params,
                     differing=[(b[0], b[1], b[2]) for b in bad[:20]]), kind='value' + name)
    return sub
