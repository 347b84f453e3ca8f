"""Bounded exhaustive exploration: recording, isolation, parallel running, evidence.

A check module provides
    LEVEL_BOUNDS(tier) -> dict           the bounds of the exploration, copied to the evidence
    jobs(tier)         -> [(name, fn, args), ...]   a partition of the explored space
    fn(rec, *args)                       explores one part completely
Every execution of the implementation runs inside `with rec.case(...)`: an
exception, a hang or an exhausted memory limit in there is a violation.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

from . import env

CASE_LIMIT_S = int(os.environ.get('MC_CASE_LIMIT_S', '90'))
MEMORY_LIMIT = 6 << 30
MAX_FAILURES_PER_JOB = 3
GRACE_AFTER_VIOLATION_S = int(os.environ.get('MC_GRACE_S', '20'))


class Mismatch(Exception):
    """The implementation disagrees with the property or the reference model."""


class JobStop(Exception):
    """Enough violations in this part of the space."""


class Hang(BaseException):
    """A single execution did not finish within CASE_LIMIT_S."""


def _on_alarm(signum, frame):
    raise Hang('no result within %d s' % CASE_LIMIT_S)


def show(value, limit=96):
    if isinstance(value, (bytes, bytearray)):
        text = value.hex()
        if len(text) > limit:
            text = text[:limit] + '...(%d bytes)' % len(value)
        return '%s:%s' % (type(value).__name__, text)
    if isinstance(value, BaseException):
        return '%s(%s)' % (type(value).__name__, value)
    text = repr(value)
    return text if len(text) <= 4 * limit else text[:4 * limit] + '...'


def same(got, want, what):
    if got != want or isinstance(got, bool) != isinstance(want, bool):
        raise Mismatch('%s: got %s, the model says %s' % (what, show(got), show(want)))


def same_bytes(got, want, what):
    """The documented result type is a byte object."""
    if not isinstance(got, (bytes, bytearray)):
        raise Mismatch('%s: got %s instead of a byte object' % (what, show(got)))
    if bytes(got) != bytes(want):
        raise Mismatch('%s: got %s, the model says %s' % (what, show(bytes(got)), show(bytes(want))))


def expect_error(kind, text, func, what):
    """func() must raise the documented error class of `kind` with `text` in its message."""
    from .target import error_class
    cls = error_class(kind)
    try:
        result = func()
    except cls as exc:
        if text is not None and text not in str(exc):
            raise Mismatch('%s: raised %s, documented message is %r' % (what, show(exc), text))
        return exc
    raise Mismatch('%s: accepted, result %s; documented: %s(%r)'
                   % (what, show(result), cls.__name__, text))


class _Case:
    def __init__(self, rec, desc, limit=None):
        self.rec = rec
        self.desc = desc
        self.limit = limit or CASE_LIMIT_S

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        return self

    def __exit__(self, kind, value, trace):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if kind is None or kind is JobStop:
            return False
        if kind in (KeyboardInterrupt, SystemExit, GeneratorExit) and kind is not SystemExit:
            return False
        desc = self.desc() if callable(self.desc) else self.desc
        if kind is Mismatch:
            text = str(value)
        elif kind is Hang:
            text = 'hang: %s' % value
        else:
            where = traceback.extract_tb(trace)
            text = 'unexpected %s: %s [%s]' % (
                kind.__name__, value,
                ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(where[-6:])))
        self.rec.fail(desc, text)
        if kind is Hang or kind is MemoryError:
            raise JobStop()
        return True


class Rec:
    def __init__(self, job):
        self.job = job
        self.seen = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.failures = []
        self.known = {}
        self.notes = {}

    # -- coverage ---------------------------------------------------------
    def state(self, key):
        """Count a distinct state; True when it is new in this job."""
        digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if digest in self.seen:
            return False
        self.seen.add(digest)
        return True

    def step(self, count=1):
        self.transitions += count

    def trace(self, count=1):
        self.traces += count

    def outcome(self, value):
        if len(self.outcomes) < 64:
            self.outcomes.add(str(value)[:80])

    def note(self, name, count=1):
        self.notes[name] = self.notes.get(name, 0) + count

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(value)

    # -- verdicts ---------------------------------------------------------
    def case(self, desc, limit=None):
        return _Case(self, desc, limit)

    def fail(self, desc, text):
        self.failures.append({'job': self.job, 'case': desc, 'what': text})
        if len(self.failures) >= MAX_FAILURES_PER_JOB:
            raise JobStop()

    def known_finding(self, ident, text):
        self.known.setdefault(ident, text)

    def result(self):
        return {'job': self.job, 'states': len(self.seen), 'transitions': self.transitions,
                'traces': self.traces, 'outcomes': sorted(self.outcomes), 'samples': self.samples,
                'failures': self.failures, 'known': self.known, 'notes': self.notes}


# --------------------------------------------------------------------------
# one job in one worker process
# --------------------------------------------------------------------------
def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)                 # noise of finalizers; checks that care install a hook


def run_job(name, fn, args):
    signal.signal(signal.SIGALRM, _on_alarm)
    os.environ.pop('GOSTCRYPTO_MC_SMALL_CURVES', None)
    env.ENTROPY.reset()
    rec = Rec(name)
    begin = time.time()
    try:
        fn(rec, *args)
        if not rec.failures and not rec.transitions:
            rec.failures.append({'job': name, 'case': 'internal', 'what': 'the job explored nothing'})
    except JobStop:
        pass
    except Mismatch as exc:
        rec.failures.append({'job': name, 'case': 'outside a case', 'what': str(exc)})
    except (Exception, Hang) as exc:        # the harness itself reached an impossible situation
        rec.failures.append({'job': name, 'case': 'outside a case',
                             'what': 'unexpected %s: %s\n%s' % (type(exc).__name__, exc,
                                                                traceback.format_exc(limit=-8))})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
    out = rec.result()
    out['wall_s'] = time.time() - begin
    return out


def _run_indexed(index):
    name, fn, args = _JOBS[index]
    return run_job(name, fn, args)


_JOBS = []


def run_jobs(jobs, budget_s, workers, progress=None):
    """Run all jobs; returns (results, unfinished job names, died)."""
    global _JOBS
    _JOBS = jobs
    results = []
    if not jobs:
        return results, [], False
    context = multiprocessing.get_context('fork')
    deadline = time.time() + budget_s
    pool = cf.ProcessPoolExecutor(workers, mp_context=context, initializer=_init_worker)
    died = False
    pending = {}
    try:
        for index in range(len(jobs)):
            pending[pool.submit(_run_indexed, index)] = jobs[index][0]
        while pending:
            left = deadline - time.time()
            if left <= 0:
                break
            done, _ = cf.wait(list(pending), timeout=min(left, 5), return_when=cf.FIRST_COMPLETED)
            for future in done:
                name = pending.pop(future)
                try:
                    out = future.result()
                except cf.process.BrokenProcessPool:
                    died = True
                    pending[future] = name
                    break
                results.append(out)
                if progress:
                    progress(out)
                if out['failures']:
                    deadline = min(deadline, time.time() + GRACE_AFTER_VIOLATION_S)
            if died:
                break
        unfinished = sorted(pending.values())
    finally:
        procs = list((getattr(pool, '_processes', None) or {}).values())
        if pending:
            for proc in procs:
                proc.kill()
        pool.shutdown(wait=not pending, cancel_futures=True)
    return results, unfinished, died


# --------------------------------------------------------------------------
# explicit-state exploration of operation histories
# --------------------------------------------------------------------------
class System:
    """A closed system: the implementation and the reference model side by side.

    start()            -> fresh bundle (implementation objects + model state)
    enabled(bundle)    -> operation names, simplest first
    apply(bundle, op)  -> performs op on both sides and compares (raises Mismatch)
    observe(bundle)    -> compares everything observable; the bundle is discarded afterwards
    key(bundle)        -> canonical state, or None when states must not be merged
    """
    merge = True

    def start(self):
        raise NotImplementedError

    def enabled(self, bundle):
        raise NotImplementedError

    def apply(self, bundle, op):
        raise NotImplementedError

    def observe(self, bundle):
        raise NotImplementedError

    def key(self, bundle):
        return None


def explore(rec, system, depth, prefix=(), tree_depth=0):
    """Breadth-first search over histories extending `prefix` up to `depth` operations.

    Every history is re-executed from a fresh start (no snapshotting of the
    implementation).  States are merged by system.key only beyond tree_depth
    operations: up to there every history is a node of its own.
    """
    frontier = [tuple(prefix)]
    first = True
    while frontier:
        nxt = []
        for hist in frontier:
            with rec.case(lambda: {'history': list(hist)}):
                bundle = system.start()
                for op in hist:
                    system.apply(bundle, op)
                ops = tuple(system.enabled(bundle)) if len(hist) < depth else ()
                if first:
                    first = False
                    rec.step(len(hist))
                    rec.state(system.key(bundle) or hist)
                    system.observe(bundle)
                    rec.trace()
                for op in ops:
                    full = hist + (op,)
                    ok = False
                    with rec.case(lambda: {'history': list(full)}):
                        run = system.start()
                        for item in full:
                            system.apply(run, item)
                        rec.step(1)
                        key = system.key(run) if system.merge and len(full) > tree_depth else None
                        new = rec.state(full if key is None else key)
                        rec.sample({'history': [str(x) for x in full]})
                        system.observe(run)
                        rec.trace()
                        ok = new
                    if ok and len(full) < depth:
                        nxt.append(full)
        frontier = nxt


def fingerprint(obj, depth=0):
    """Canonical form of an object graph, or raises TypeError for what it cannot see through."""
    if depth > 8:
        raise TypeError('too deep')
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if isinstance(obj, (bytes, bytearray)):
        return type(obj).__name__, bytes(obj)
    if isinstance(obj, (list, tuple)):
        return type(obj).__name__, tuple(fingerprint(x, depth + 1) for x in obj)
    if isinstance(obj, (set, frozenset)):
        return 'set', tuple(sorted((fingerprint(x, depth + 1) for x in obj), key=repr))
    if isinstance(obj, dict):
        return 'dict', tuple(sorted(((fingerprint(k, depth + 1), fingerprint(v, depth + 1))
                                     for k, v in obj.items()), key=repr))
    if type(obj).__module__.startswith('gostcrypto'):
        state = dict(getattr(obj, '__dict__', {}))
        for cls in type(obj).__mro__:
            for slot in getattr(cls, '__slots__', ()):
                if isinstance(slot, str) and hasattr(obj, slot):
                    state[slot] = getattr(obj, slot)
        return type(obj).__name__, fingerprint(state, depth + 1)
    raise TypeError('opaque %r' % type(obj))


def fp(*objs):
    """fingerprint() of several objects, or None when one of them is opaque (no merging then)."""
    try:
        return tuple(fingerprint(o) for o in objs)
    except TypeError:
        return None


# --------------------------------------------------------------------------
# reports
# --------------------------------------------------------------------------
def default(value):
    if isinstance(value, (bytes, bytearray)):
        return show(value, 400)
    return repr(value)


def dump(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    temp = path + '.tmp'
    with open(temp, 'w') as handle:
        json.dump(data, handle, indent=1, default=default)
        handle.write('\n')
    os.replace(temp, path)
