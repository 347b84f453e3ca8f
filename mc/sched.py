"""Controlled scheduler for two threads running library code, and cold-started libraries.

A schedule is: thread A runs to its preemption point i, thread B runs to its
point j (or to the end), A runs to the end, B runs to the end.  Exactly one
thread runs at any time.  A preemption point is a line event in a source file
of the library.
"""
import importlib._bootstrap_external as boot
import os
import sys
import threading

from . import target

LIB = os.path.join(target.REPO, 'gostcrypto') + os.sep
BLOCKED_S = 3.0
_CODE = {}
_REAL_GET_CODE = boot.SourceFileLoader.get_code


def _get_code(self, fullname):
    if not fullname.startswith('gostcrypto'):
        return _REAL_GET_CODE(self, fullname)
    if fullname not in _CODE:
        _CODE[fullname] = _REAL_GET_CODE(self, fullname)
    return _CODE[fullname]


def cold():
    """Throw the loaded library away and execute all its modules afresh."""
    boot.SourceFileLoader.get_code = _get_code
    try:
        for name in [n for n in sys.modules if n.split('.')[0] == 'gostcrypto']:
            del sys.modules[name]
        target.load()
    finally:
        boot.SourceFileLoader.get_code = _REAL_GET_CODE


class Tracer:
    """Counts the line events of one thread inside the library; calls hit() at event number `at`."""

    def __init__(self, at=None, hit=None, record=None):
        self.count = 0
        self.at = at
        self.hit = hit
        self.record = record
        self.entered = None

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB):
            return None
        self.entered = frame
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            if self.record is not None:
                self.record.append((frame.f_code.co_filename, frame.f_lineno, frame is self.entered))
                self.entered = None
            index = self.count
            self.count += 1
            if index == self.at:
                sys.settrace(None)
                self.hit()
        return self.line


def points(func, occurrences, entries=False):
    """Event numbers at which func() may be preempted: each source line (or only the first
    line of each function) at its first `occurrences` occurrences and its last one."""
    record = []
    tracer = Tracer(record=record)
    sys.settrace(tracer.call)
    try:
        func()
    finally:
        sys.settrace(None)
    where = {}
    for index, (name, line, entry) in enumerate(record):
        if entry or not entries:
            where.setdefault((name, line), []).append(index)
    chosen = set()
    for places in where.values():
        chosen.update(places[:occurrences])
        chosen.add(places[-1])
    return sorted(chosen), len(record), len(where)


class Outcome:
    def __init__(self):
        self.error = {}
        self.reached = False
        self.reached_b = False
        self.blocked = False


def schedule(run_a, at_a, run_b, at_b=None):
    """Run both functions under the schedule; returns an Outcome with the exceptions."""
    out = Outcome()
    b_started = threading.Event()
    b_paused = threading.Event()        # B reached at_b, or ended
    a_done = threading.Event()

    def b_hit():
        out.reached_b = True
        b_paused.set()
        a_done.wait(4 * BLOCKED_S)

    def body_b():
        b_started.wait()
        tracer = Tracer(at_b, b_hit)
        if at_b is not None:
            sys.settrace(tracer.call)
        try:
            run_b()
        except BaseException as exc:
            out.error['B'] = exc
        finally:
            sys.settrace(None)
            b_paused.set()

    def a_hit():
        out.reached = True
        b_started.set()
        if not b_paused.wait(BLOCKED_S):        # B waits for something A holds: let A go on
            out.blocked = True

    helper = threading.Thread(target=body_b, daemon=True)
    helper.start()
    tracer = Tracer(at_a, a_hit)
    sys.settrace(tracer.call)
    try:
        run_a()
    except BaseException as exc:
        out.error['A'] = exc
    finally:
        sys.settrace(None)
        a_done.set()
        b_started.set()
    helper.join(8 * BLOCKED_S)
    if helper.is_alive():
        out.error['B'] = TimeoutError('thread B never ended')
    return out
