"""Runner for the monitors: seeded cases, watchdog, violation replay files, measured evidence."""
import argparse
import collections
import importlib
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QV_REPO', '/repo')
CASE_TIMEOUT = float(os.environ.get('QV_CASE_TIMEOUT', '150'))
WALL_LIMIT = {'quick': 780., 'thorough': 6 * 3600.}

warnings.simplefilter('ignore')


class Violation(Exception):
    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class CaseTimeout(BaseException):
    pass


class KnownFinding(Exception):
    """raised by a case which ran into a finding listed in known_findings.json"""


def check(cond, message, **details):
    if not cond:
        raise Violation(message, **details)


def jsonable(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.Series):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, pd.DataFrame):
        return {str(k): jsonable(x[k]) for k in x.columns}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset, range)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else str(x)
    return repr(x)[:500]


class Ctx:
    """What one worker observed."""

    def __init__(self, tier, seed, scratch):
        self.tier, self.seed, self.scratch = tier, seed, scratch
        self.counters = collections.Counter()
        self.keys = set()
        self.samples = []
        self.index = None

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def distinct(self, *key):
        """register a non-trivial observation; counted once per distinct key"""
        self.keys.add(zlib.crc32(repr(key).encode()) | (zlib.adler32(repr(key).encode()) << 32))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(dict(case=self.index, **kw)))

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch)


def rng_for(prop, seed, index):
    import numpy as np
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), index])


def _blame(tb):
    """whose frame is innermost: code under test or the harness"""
    owner = None
    for fs in traceback.extract_tb(tb):
        f = fs.filename         # absolute, but relative for frames of compiled extensions
        if f.startswith(os.path.join(REPO, 'qtune')):
            owner = 'qtune'
        elif f.startswith(VERIF):
            owner = 'harness'
    return owner


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, ctx, index):
    """-> None or dict(kind='violation'|'error', ...)"""
    ctx.index = index
    rng = rng_for(mod.PROPERTY, ctx.seed, index)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.case(rng, ctx, index)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Violation as v:
        return dict(kind='violation', index=index, message=v.message, details=jsonable(v.details))
    except KnownFinding as k:
        return dict(kind='known', index=index, message=str(k))
    except CaseTimeout:
        tb = traceback.format_exc()
        stuck = _blame(sys.exc_info()[2])
        return dict(kind='violation' if 'qtune' in tb else 'error', index=index,
                    message='did not terminate within the time limit (stuck in %s)' % stuck,
                    details=dict(traceback=tb[-3000:]))
    except Exception as e:
        tb = traceback.format_exc()
        kind = 'violation' if _blame(sys.exc_info()[2]) == 'qtune' else 'error'
        if isinstance(e, (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError)):
            kind = 'violation'      # what the code returned does not have the form every correct outcome has
        return dict(kind=kind, index=index, message='unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                    details=dict(traceback=tb[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _quiet():
    warnings.simplefilter('ignore')
    for name in ('qtune', 'plotting', None):
        logging.getLogger(name).handlers[:] = [logging.NullHandler()]
    logging.getLogger('qtune').propagate = False
    threading.excepthook = lambda *a: None


def _worker(modname, tier, seed, scratch, counter, n, deadline, out, widx):
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('QV_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    _quiet()
    mod = importlib.import_module(modname)
    ctx = Ctx(tier, seed, scratch)
    problems, done = [], 0
    if hasattr(mod, 'worker_init'):
        mod.worker_init(ctx)
    while True:
        with counter.get_lock():
            i = counter.value
            if i >= n:
                break
            counter.value += 1
        if time.time() > deadline:
            problems.append(dict(kind='deadline', index=i, message='wall limit'))
            break
        r = run_case(mod, ctx, i)
        done += 1
        if r is not None:
            problems.append(r)
            if r['kind'] != 'known':
                with counter.get_lock():
                    counter.value = n      # stop everyone soon
                break
    with open(os.path.join(scratch, 'result_%d.json' % widx), 'w') as f:
        json.dump(dict(done=done, counters=dict(ctx.counters), keys=sorted(ctx.keys), samples=ctx.samples,
                       problems=problems), f)
    out.put(widx)
    out.close()
    out.join_thread()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        return json.load(open(path))
    return dict(findings=[], fixed=[])


def evidence_path(prop):
    return os.path.join(VERIF, 'evidence', prop + '.json')


def adopt_orphans():
    """processes left behind by a worker become children of this process"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass


def end_children():
    """ends everything this process started and which is still running"""
    for _ in range(20):
        left = []
        for pid in os.listdir('/proc'):
            if pid.isdigit():
                try:
                    with open('/proc/%s/stat' % pid) as f:
                        state, ppid = f.read().rsplit(')', 1)[1].split()[:2]
                except OSError:
                    continue
                if int(ppid) == os.getpid() and state != 'Z':
                    left.append(int(pid))
        if not left:
            break
        for pid in left:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(.05)


def run_property(modname, tier, seed, n=None, jobs=None):
    t0 = time.time()
    import qtune
    qdir = os.path.dirname(os.path.abspath(qtune.__file__))
    if qdir != os.path.join(REPO, 'qtune'):
        print('error: qtune imported from %s' % qdir)
        return 2
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    n = n or mod.N[tier]
    jobs = jobs or getattr(mod, 'JOBS', None) or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix='qv_%s_' % prop)
    mp = multiprocessing.get_context('fork')
    counter = mp.Value('i', 0)
    out = mp.Queue()
    deadline = t0 + WALL_LIMIT[tier]
    procs = [mp.Process(target=_worker, args=(modname, tier, seed, scratch, counter, n, deadline, out, w))
             for w in range(jobs)]
    adopt_orphans()
    for p in procs:
        p.start()
    for p in procs:
        # not join: it waits for the end of processes left behind by the code under test as well
        while p.is_alive() and time.time() < deadline + 400:
            time.sleep(.02)
        if p.is_alive():
            p.kill()
    end_children()
    counters, keys, samples, problems, done, missing = collections.Counter(), set(), [], [], 0, 0
    for w in range(jobs):
        f = os.path.join(scratch, 'result_%d.json' % w)
        if not os.path.exists(f):
            missing += 1
            continue
        r = json.load(open(f))
        done += r['done']
        counters.update(r['counters'])
        keys.update(r['keys'])
        samples += r['samples']
        problems += r['problems']
    shutil.rmtree(scratch, ignore_errors=True)
    violations = [p for p in problems if p['kind'] == 'violation']
    errors = [p for p in problems if p['kind'] == 'error']
    deadl = [p for p in problems if p['kind'] == 'deadline']
    known = [p for p in problems if p['kind'] == 'known']
    rc = 0
    for k in sorted({p['message'] for p in known}):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        violations.sort(key=lambda p: p['index'])
        for v in violations[:3]:
            path = os.path.join(rdir, '%s-%s-%d-%d.json' % (prop, tier, seed, v['index']))
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   case %d: %s' % (v['index'], v['message']))
        rc = 1
    else:
        if errors or missing:
            for e in errors[:3]:
                print('error in case %d: %s\n%s' % (e['index'], e['message'],
                                                    (e.get('details') or {}).get('traceback', '')))
            if missing:
                print('error: %d workers died' % missing)
            rc = 2
        required = dict(getattr(mod, 'REQUIRED', {}))
        for name, frac in required.items():
            need = frac * done if frac < 1 else frac
            if counters[name] < need and rc == 0:
                print('error: inconclusive, monitor %r observed %d < %g events' % (name, counters[name], need))
                rc = 2
        if deadl and done < n and rc == 0:
            print('note: wall limit reached after %d of %d cases' % (done, n))
            if done < 0.2 * n:
                rc = 2
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=done, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples[:6] or [dict(note='no sample recorded')],
                            observed={k: counters[k] for k in sorted(counters)},
                            known_findings_hit=len(known)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(evidence_path(prop), 'w'), indent=1)
    print('%s %s seed=%d cases=%d distinct=%d wall=%.1fs %s -> %s' % (
        prop, tier, seed, done, len(keys), time.time() - t0,
        ' '.join('%s=%d' % kv for kv in sorted(counters.items())), {0: 'held', 1: 'VIOLATED'}.get(rc, 'ERROR')))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('-n', type=int)
    ap.add_argument('-j', type=int)
    a = ap.parse_args()
    modname = 'qv.checks.' + a.property.lower()
    if a.replay or a.case is not None:
        idx, tier, seed = a.case, a.tier, a.seed
        if a.replay:
            r = json.load(open(a.replay))
            idx, tier, seed = r['index'], r['tier'], r['seed']
        _quiet()
        mod = importlib.import_module(modname)
        scratch = tempfile.mkdtemp(prefix='qv_replay_')
        ctx = Ctx(tier, seed, scratch)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        res = run_case(mod, ctx, idx)
        shutil.rmtree(scratch, ignore_errors=True)
        print(json.dumps(res, indent=1))
        if res and 'traceback' in (res.get('details') or {}):
            print(res['details']['traceback'])
        sys.stdout.flush()
        os._exit(1 if res and res['kind'] == 'violation' else 0)
    rc = run_property(modname, a.tier, a.seed, a.n, a.j)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
