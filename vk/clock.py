"""A virtual clock in place of the time functions a module may use."""
import contextlib
import time

NAMES = ["time", "perf_counter", "monotonic", "process_time"]


class Clock(object):
    def __init__(self, start=1000.0):
        self.now = start

    def advance(self, dt):
        self.now += dt

    def __call__(self):
        return self.now


@contextlib.contextmanager
def virtual(*modules):
    """Every time function of `time` and of the modules reads the clock."""
    clock = Clock()
    real = {getattr(time, n): n for n in NAMES}
    undo = []
    try:
        for m in modules:
            for name, value in list(vars(m).items()):
                try:
                    known = value in real
                except TypeError:
                    continue
                if known:
                    undo.append((m, name, value))
                    setattr(m, name, clock)
        for n in NAMES:
            undo.append((time, n, getattr(time, n)))
            setattr(time, n, clock)
        yield clock
    finally:
        for m, name, value in reversed(undo):
            setattr(m, name, value)
