"""Run context shared by all checks: seeded randomness, event counters,
violations with replay files, evidence, three-valued verdicts."""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import weakref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))


class Inconclusive(Exception):
    pass


class StopRun(BaseException):
    pass


def watch(run, tick=10., limit=5):
    """A call into the package that uses nearly a minute of processor time does not
    return (calls take seconds at most): report it instead of hanging."""
    repo = os.path.realpath(REPO) + os.sep
    state = dict(mark=lambda: None, n=0)

    class Mark:
        """Tells whether a frame is still the same one without keeping it (and the open
        files it holds) alive: the frame owns the mark, the monitor a weak reference."""
        def __call__(self, *a):
            return self

    def handler(signum, frame):
        outer = None
        inner = frame
        f = frame
        while f is not None:
            if os.path.realpath(f.f_code.co_filename).startswith(repo):
                outer = f
            f = f.f_back
        mark = state['mark']()
        if outer is None or mark is None or outer.f_trace is not mark:
            mark = None
            if outer is not None:
                mark = outer.f_trace = Mark()
                outer.f_trace_lines = False
            state.update(mark=weakref.ref(mark) if mark is not None else (lambda: None), n=0)
            return
        state['n'] += 1
        if state['n'] >= limit:
            where = traceback.format_stack(inner)[-6:]
            code = outer.f_code
            state.update(mark=lambda: None, n=0)
            run.violate('call of %s (%s) does not return: %d s of processor time' % (code.co_name, os.path.basename(code.co_filename), tick * limit),
                        dict(stack=where), kind='hang')
            raise StopRun()
    signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, tick, tick)


def jsonable(x, depth=0):
    if isinstance(x, dict):
        items = list(x.items())
        if len(items) > 400:
            d = {str(k): jsonable(v) for k, v in items[:400]}
            d['...'] = '%d more' % (len(items) - 400)
            return d
        return {str(k): jsonable(v) for k, v in items}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Run:
    MAXVIOL = 12

    def __init__(self, pid, seed, tier):
        self.id = pid
        self.seed = seed
        self.tier = tier
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.evaluations = 0
        self._distinct = set()
        self.samples = []
        self.viol = []
        self._kinds = collections.Counter()
        self.rule = ''
        self.assumptions = []
        self.floors = {}

    # -- budget -------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 6 * quick) if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def more(self, quick_s, thorough_s=None):
        """Optional extra work is only started while this is true; it never
        decides a verdict."""
        return self.elapsed() < ((thorough_s or 6 * quick_s) if self.thorough else quick_s)

    # -- observations -------------------------------------------------------
    def observe(self, kind, key=None, nontrivial=True, sample=None):
        self.counts[kind] += 1
        self.evaluations += 1
        if nontrivial:
            h = hashlib.sha1(repr((kind, key if key is not None else self.evaluations)).encode()).digest()[:8]
            self._distinct.add(h)
        if sample is not None and (len(self.samples) < 6) and self._kinds['s' + kind] < 2:
            self._kinds['s' + kind] += 1
            self.samples.append(jsonable(sample))

    def violate(self, what, witness=None, kind=None):
        """Record a violation; `kind` groups witnesses of the same mechanism."""
        k = kind or what
        self._kinds['v' + k] += 1
        if self._kinds['v' + k] > 3:
            return
        self.viol.append(dict(what=what, witness=jsonable(witness)))
        if len(self.viol) >= self.MAXVIOL:
            raise StopRun()

    def check(self, cond, what, witness=None, kind=None):
        if not cond:
            self.violate(what, witness() if callable(witness) else witness, kind)
        return bool(cond)

    def guard(self, fn, what, witness=None):
        """Call code under test on valid input; an exception is a violation.
        Returns (ok, result)."""
        try:
            return True, fn()
        except (StopRun, Inconclusive, KeyboardInterrupt):
            raise
        except BaseException as e:
            tb = traceback.format_exc().splitlines()[-8:]
            self.violate('%s: unexpected %s: %s' % (what, type(e).__name__, str(e)[:200]),
                         dict(input=witness() if callable(witness) else witness, traceback=tb),
                         kind=what + type(e).__name__)
            return False, None

    # -- verdict ------------------------------------------------------------
    def floor(self, **kw):
        self.floors.update(kw)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='exploration',
                  coverage=dict(evaluations=self.evaluations,
                                distinct_nontrivial=len(self._distinct),
                                rule=self.rule or 'each observed event compared with its oracle',
                                samples=self.samples or ['(none)'],
                                events_by_kind=dict(self.counts)),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            rp = os.path.join(EVID, '%s.replay.json' % self.id)
            with open(rp, 'w') as f:
                json.dump(dict(property=self.id, seed=self.seed, tier=self.tier,
                               rerun='VERIF_SEED=%s VERIF_TIER=%s %s run.py %s' % (
                                   self.seed, self.tier, sys.executable, self.id),
                               violations=self.viol), f, indent=1)
            for v in self.viol[:6]:
                print('  violated: ' + v['what'][:300])
            print('VIOLATION property=%s replay=%s' % (self.id, rp))
            return 1
        missing = {k: (self.counts[k], v) for k, v in self.floors.items() if self.counts[k] < v}
        if missing or not self.evaluations:
            print('INCONCLUSIVE property=%s monitors not reached: %s' % (self.id, missing))
            return 2
        print('OK property=%s events=%d distinct=%d wall=%.1fs %s' % (
            self.id, self.evaluations, len(self._distinct), wall,
            ' '.join('%s=%d' % kv for kv in sorted(self.counts.items()))[:600]))
        return 0


def from_repo(tb):
    """Does the exception originate in the code under test?"""
    repo = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(repo):
            return True
    return False


def main(pid):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import logging
    logging.disable(logging.CRITICAL)
    run = Run(pid, seed, tier)
    for fn in (os.path.join(EVID, pid + '.json'), os.path.join(EVID, pid + '.replay.json')):
        if os.path.exists(fn):
            os.remove(fn)
    watch(run)
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(run)
    except StopRun:
        pass
    except Inconclusive as e:
        if not run.viol:
            run.finish()
            print('INCONCLUSIVE property=%s %s' % (pid, e))
            return 2
    except Exception as e:
        tb = traceback.format_exc()
        if from_repo(e.__traceback__):
            try:
                run.violate('unexpected exception in the package: %s: %s' % (type(e).__name__, str(e)[:300]),
                            tb.splitlines()[-14:])
            except StopRun:
                pass
        elif not run.viol:
            print(tb)
            print('HARNESS-ERROR property=%s' % pid)
            return 2
    finally:
        # the interpreter restores the default handlers when it ends: a late tick must not kill it
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_IGN)
    return run.finish()
