"""Tap on the public entry points WC.translate and WC.match: every call made
by a workload (or by the package itself) becomes an event that is handed to
the subscribed oracles."""
import copy


class Event:
    __slots__ = ('kind', 'route', 'C', 'scale', 'params', 'result', 'error', 'seq', 'meta', 'wc')

    def __repr__(self):
        return '<%s %s>' % (self.kind, '/'.join(self.route))


class Tap:
    def __init__(self, w):
        self.w = w
        self.subs = []
        self.seq = 0
        self.depth = 0
        self._orig = (w.WC.translate, w.WC.match)

    def subscribe(self, fn):
        self.subs.append(fn)
        return self

    def __enter__(self):
        tap, (ot, om) = self, self._orig

        def translate(wc, *a, **kw):
            return tap._call('translate', ot, wc, a, kw)

        def match(wc, *a, **kw):
            return tap._call('match', om, wc, a, kw)
        self.w.WC.translate = translate
        self.w.WC.match = match
        return self

    def __exit__(self, *a):
        self.w.WC.translate, self.w.WC.match = self._orig

    def _call(self, kind, orig, wc, a, kw):
        ev = Event()
        ev.kind = kind
        ev.wc = wc
        ev.meta = None
        self.seq += 1
        ev.seq = self.seq
        names = ('to_basis', 'parameters') if kind == 'translate' else ('to_eft', 'to_basis', 'parameters')
        args = dict(zip(names, a))
        args.update(kw)
        ev.params = copy.deepcopy(args.get('parameters'))
        ev.route = (wc.eft, wc.basis) + tuple(args.get(n) for n in names[:-1])
        ev.scale = wc.scale
        # numbers as written in the file, read independently of the package
        ev.C = {k: read(v) for k, v in wc.values.items()}
        ev.result = ev.error = None
        try:
            ev.result = orig(wc, *a, **kw)
        except Exception as e:
            ev.error = e
        for s in self.subs:
            s(ev)
        if ev.error is not None:
            raise ev.error
        return ev.result


def read(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return float(v)
