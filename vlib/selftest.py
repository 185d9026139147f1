"""Set-up command: the tools are present, and every comparator of the harness
reports a planted difference (negative controls).  Independent of /repo."""
import random


def main():
    import importlib
    for m in ('numpy', 'yaml', 'ckmutil', 'rundec', 'pylha'):
        importlib.import_module(m)
    from . import bases as B, card, core, doc, gen, oracle, ref
    rng = random.Random(5)
    # structural comparison
    a = doc.data(rng, 4)
    assert doc.same(a, a)
    assert not doc.same({'a': 1}, {'a': True}) and not doc.same({'a': 1.}, {'a': '1.0'}) and not doc.same([1, 2], [2, 1])
    assert not doc.same({'a': 0.1}, {'a': 0.1 + 2e-17 * 2})
    # every reference map reacts to every coefficient it lists and to a perturbed result
    seen = 0
    for route in gen.ROUTES:
        C = gen.consistent(route, gen.route_input(rng, route, 'dense'))
        exp = oracle.expected(route, C, 91.1876 if route[0] == 'SMEFT' else 4.2, None)
        got = {k: v for k, (v, t) in exp.items()}
        assert not oracle.compare(got, exp), route
        for k in rng.sample(sorted(got), min(len(got), 5)):
            if abs(got[k]) <= 1e3 * exp[k][1] or got[k] == 0:
                continue
            for bad in (got[k] * (1 + 1e-4), -got[k], 0, got[k] * 1j):
                assert oracle.compare(dict(got, **{k: bad}), exp), (route, k)
                seen += 1
        assert oracle.compare(dict(got, superfluous=1.), exp)
    assert seen > 100
    # verdicts of the run context
    r = core.Run('C00', 1, 'quick')
    r.check(True, 'x')
    assert not r.viol
    r.check(False, 'x')
    assert len(r.viol) == 1
    ok, _ = r.guard(lambda: 1 / 0, 'y')
    assert not ok and len(r.viol) == 2
    assert card.parse('Block A\n 1 2 3.0 # x\nDECAY 6 1.5\n') == {'A': {'1 2': 3.0}, 'DECAY': {'6': 1.5}}
    assert card.meaning('# cHl1Abs12') == ('phil1_12', False, 'Abs') and card.meaning('# cHbox')[0] == 'phiBox'
    assert len(B.smeft_keys()) == len(set(B.smeft_keys()))
    assert ref.DEFAULTS
    print('selftest ok: %d negative controls' % seen)
    return 0
