"""
sx.coro - the threads of the code under test, as coroutines: one runs at a time and control
changes hands only where the environment lets it (a stub calls yield_).  Built on real threads
with a strict hand-over, so that the code needs no change.
"""
import signal
import threading
from . import core

threading.stack_size(64 * 1024 * 1024)


class Killed(core.SxExit):
    "the path is over: unwinds the coroutine"


class Coro:
    def __init__(self, ctx, fn, name=""):
        self.ctx, self.fn, self.name = ctx, fn, name
        self.done = False
        self.started = False
        self.running = False            # it, or one it has resumed, has control
        self.error = None
        self.killed = False
        self.waits = None               # what it said when it last gave up control
        self.message = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        ctx.cleanups.append(self.kill)
        ctx.__dict__.setdefault("coros", []).append(self)

    def resume(self, message=None):
        "runs until it gives up control or ends; returns what it waits for (None: it has ended)"
        if self.done or self.running:
            return self.waits
        self.message = message
        self.running = True
        before = getattr(self.ctx, "thread", 0)
        self.ctx.thread = self
        if not self.started:
            self.started = True
            self.t = threading.Thread(target=self._main, daemon=True)
            self.t.start()
        else:
            self.go.release()
        self.back.acquire()
        self.ctx.thread = before
        self.running = False
        if self.done and self.error is not None:
            e, self.error = self.error, None
            if not isinstance(e, Killed):
                raise e
        return self.waits

    def yield_(self, waits):
        "called by a stub inside the coroutine: gives up control; returns the message of the next resume"
        if self.killed:
            raise Killed()
        self.waits = waits
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed()
        return self.message

    def _main(self):
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGVTALRM])      # sx.watch wakes up the main thread
        try:
            self.fn()
        except BaseException as e:
            self.error = e
        self.waits = None
        self.done = True
        self.back.release()

    def kill(self):
        self.killed = True
        for _ in range(10):
            if not self.started or self.done:
                break
            if self.running:            # the path ended inside it
                break
            self.running = True
            self.go.release()
            self.back.acquire()
            self.running = False
        self.error = None


def current(ctx):
    t = getattr(ctx, "thread", 0)
    return t if isinstance(t, Coro) else None
