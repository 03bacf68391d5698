"""Case framework: what a check explores, how verdicts are collected."""
import contextlib
import io
import os
import signal
import sys
import time
import traceback
import warnings

from mc import engine

REPO = os.environ.get('DPPY_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
TOL = 1e-8


def setup_import():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import dppy
    assert os.path.abspath(dppy.__file__).startswith(os.path.abspath(REPO) + os.sep), dppy.__file__


class Case:
    """One bounded exploration. `fn(rec, *args)` reports through `rec`."""

    def __init__(self, cid, fn, *args, cost=1.0):
        self.cid, self.fn, self.args, self.cost = cid, fn, args, cost


class Rec:
    """Collects what one case covered and which violations it found."""

    def __init__(self, cid):
        self.cid = cid
        self.stats = engine.Stats()
        self.violations = []
        self.undecided = []
        self.samples = []
        self.replayed = 0
        self.evals = 0
        self.residual = 0.0

    def bad(self, kind, msg, **data):
        key = '%s|%s' % (self.cid, kind)
        if all(v['key'] != key for v in self.violations):
            self.violations.append(dict(key=key, msg=str(msg)[:1500], data=data))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # -- exploration of a law and comparison with a target -----------------------
    def law(self, prog, **kw):
        """Explore; returns the law or None when the program cannot be modelled."""
        try:
            L = engine.law_of(prog, **kw)
        except (engine.Unsupported, engine.Divergence) as e:
            self.undecided.append('%s: %s' % (type(e).__name__, e))
            return None
        self.stats.add(L.stats)
        self.residual = max(self.residual, L.residual)
        # determinism of the exploration: replay two recorded traces
        for o, path in list(L.traces.items())[:2]:
            try:
                o2 = engine.replay(prog, path, kw.get('policy'))
            except (engine.Unsupported, engine.Divergence) as e:
                self.undecided.append('replay: %s' % e)
                return None
            if o2 != o:
                self.undecided.append('replay of %s gave %s' % (o, o2))
                return None
            self.replayed += 1
        return L

    def compare(self, L, target, what='law', tol=TOL, cond=None):
        """target: dict outcome -> probability (outcomes absent have probability 0).

        Sound for partial explorations: only what the explored mass proves is reported.
        """
        if L is None:
            return False
        ok = True
        r = L.residual
        for o, p in sorted(L.p.items(), key=lambda t: -t[1]):
            t = target.get(o, 0.0)
            if p > t + tol:
                self.bad(what, 'outcome %r has probability %.10g, should be %.10g'
                         % (o, p, t), path=L.traces.get(o), outcome=repr(o), got=p, want=t)
                ok = False
                break
        if ok:
            for o, t in target.items():
                p = L.p.get(o, 0.0)
                if t > p + r + tol:
                    self.bad(what, 'outcome %r has probability %.10g (unexplored %.2g), should be %.10g'
                             % (o, p, r, t), path=L.traces.get(o), outcome=repr(o), got=p, want=t)
                    ok = False
                    break
        if ok and L.p:
            o = max(L.p, key=L.p.get)
            self.sample({'case': self.cid, 'outcome': repr(o)[:200], 'probability': L.p[o],
                         'target': target.get(o, 0.0), 'choices': (L.traces.get(o) or [])[:40]})
        return ok

    def check_law(self, prog, target, what='law', tol=TOL, **kw):
        return self.compare(self.law(prog, **kw), target, what, tol)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


@contextlib.contextmanager
def limit(seconds):
    def h(signum, frame):
        raise engine.Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def attempt(f, *a, **k):
    """('ok', value) or ('exc', type name, message): exceptions are observations."""
    try:
        with limit(60):
            return ('ok', f(*a, **k))
    except engine.Hang:
        return ('exc', 'HANG', '')
    except (engine.Unsupported, engine.Divergence, engine.Abort):
        raise
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


def run_case(case):
    rec = Rec(case.cid)
    t = time.time()
    try:
        with quiet():
            case.fn(rec, *case.args)
    except (engine.Unsupported, engine.Divergence) as e:
        rec.undecided.append('%s: %s' % (type(e).__name__, e))
    except Exception as e:
        txt = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(REPO + os.sep) for f in frames):
            rec.bad('exception', 'the implementation raised unexpectedly:\n' + txt[-1200:])
        else:
            rec.error = txt
    if not rec.stats['states']:     # every direct evaluation of the real code is one configuration explored
        for k in ('states', 'transitions', 'executions'):
            rec.stats[k] += rec.evals
    rec.wall = time.time() - t
    return rec
