"""Crash points inside one call: an exception from outside is raised before a chosen source line of the library."""
import gc
import sys

from .sched import LIB, Tracer, points


class Stop(KeyboardInterrupt):
    """What a signal handler raises."""


class Short(MemoryError):
    """What an allocation raises."""


def attempt(func, at, exc=Stop):
    """Runs func() and raises exc before line event number `at`; tells whether the call was interrupted."""
    def hit():
        raise exc()
    tracer = Tracer(at, hit)
    sys.settrace(tracer.call)
    try:
        func()
    except exc:
        return True
    finally:
        sys.settrace(None)
    return False


def stop_at_work(func, after):
    """Runs func() until `after` lines of the library have been executed and no destructor is running
    (which would swallow the exception); tells whether it had to be stopped."""
    seen = [0]

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(LIB) else None

    def line(frame, event, arg):
        seen[0] += event == 'line'
        if seen[0] > after:
            while frame and frame.f_code.co_name != '__del__':
                frame = frame.f_back
            if not frame:
                sys.settrace(None)
                raise Stop()
        return line
    sys.settrace(call)
    try:
        func()
    except Stop:
        return True
    finally:
        sys.settrace(None)
    return False


class Quiet:
    """Collects what destructors complain about (other than the interruption itself)."""

    def __init__(self):
        self.found = []

    def note(self, info):
        if not isinstance(info.exc_value, (Stop, Short)):
            self.found.append('%s: %s in %s' % (type(info.exc_value).__name__, info.exc_value, getattr(info.object, '__qualname__', info.object)))

    def __enter__(self):
        self.old = sys.unraisablehook
        sys.unraisablehook = self.note
        return self.found

    def __exit__(self, kind, value, trace):
        if kind is None:
            gc.collect(0)
        sys.unraisablehook = self.old


__all__ = ['attempt', 'points', 'Quiet', 'Stop', 'Short', 'stop_at_work']
