"""
sx.watch - code which does not come to an end.  A path may use so much processor time, then it is
interrupted wherever it is (in the main thread or in a coroutine's), repeatedly if need be.
"""
import ctypes
import signal
from .core import PathStop

SYMBOLIC_S = 60         # of processor time, for a path of symbolic execution
CONCRETE_S = 20         # for a replay of it on the plain source


class Endless(PathStop):
    "the path has used up its time"


class watch:
    def __init__(self, ctx, seconds):
        self.ctx, self.seconds = ctx, seconds

    def fire(self, signum, frame):
        from .coro import Killed
        for c in getattr(self.ctx, "coros", ()):
            if c.started and not c.done:
                c.killed = True
                if c.running:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(c.t.ident), ctypes.py_object(Killed))
        raise Endless("deadline of a path")

    def __enter__(self):
        self.before = signal.signal(signal.SIGVTALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 0.5)

    def __exit__(self, *a):
        while True:
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.signal(signal.SIGVTALRM, self.before)
                return False
            except Endless:
                pass
