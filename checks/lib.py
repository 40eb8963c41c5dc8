"shared pieces of the harnesses"
import socket
from sx import coro
from sx.stubs import point
from sx.vals import land, lor, lnot, eq, ite, is_sym, SymBytes, SymStr, SymInt, mkbytes


def fmt(L, ver):
    return L.load({5: "mqtt.formats.MQTTV5", 311: "mqtt.formats.MQTTV311", 0: "mqtt.formats.MQTTSN"}[ver])


def seqeq(a, b):
    "element-wise equality of two byte sequences, without forking"
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return land(*[eq(x, y) for x, y in zip(a, b)])


class Sock:
    """A stream socket.  recv returns at most what was asked for; how the stream is
    cut into segments is the harness's choice."""
    websockets = False

    def __init__(self, ctx, name="s", chunk=None):
        self.ctx, self.name, self.chunk = ctx, name, chunk
        self.inbuf = []
        self.out = []          # list of sent byte strings
        self.consumed = 0
        self.closed = False
        self.shut = False
        self.ended = False     # nothing more will arrive
        self.ends = 0
        self.blocking = False  # wait when there is nothing to read (otherwise that is the end)
        self.timeout = None
        self.broken = False    # the connection has been reset
        self.partial = None    # how many of the bytes a send takes

    def feed(self, b):
        self.inbuf.extend(list(b))

    def recv(self, n):
        point(self.ctx, "recv", self)
        if self.closed:
            raise OSError("closed")
        me = coro.current(self.ctx)
        while self.blocking and not self.inbuf and not self.ended and not self.shut and not self.broken:
            # wait for the harness to send more, or to let time pass
            if me.yield_("recv") == "timeout" and self.timeout is not None:
                raise socket.timeout("timed out")
            if self.closed:
                raise OSError("closed")
        if self.broken and not self.inbuf:
            raise ConnectionResetError(104, "Connection reset by peer")
        if is_sym(n):
            n = n.__index__() if n <= len(self.inbuf) else len(self.inbuf) or 1
        if n and not self.inbuf:
            self.ended = True
            self.ends += 1
            if self.ends > 100:
                self.ctx.fail("a connection which has ended is not read from for ever", self.name)
        n = min(n, len(self.inbuf))
        if self.chunk is not None and n > 1:
            n = self.chunk(n)
        r, self.inbuf = self.inbuf[:n], self.inbuf[n:]
        self.consumed += n
        return mkbytes(r) if self.ctx.symbolic else bytes(r)

    def send(self, b):
        point(self.ctx, "send", self)
        if self.closed:
            raise OSError("closed")
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")
        n = len(b)
        if self.partial is not None and n:
            n = self.partial(n)
            n = n.__index__()
        self.out.append(b if n == len(b) else b[:n])
        return n

    def sendall(self, b):
        point(self.ctx, "send", self)
        if self.closed:
            raise OSError("closed")
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")
        self.out.append(b)

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, b):
        self.timeout = None if b else 0

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return self.timeout

    def fileno(self):
        return -1 if self.closed else 7

    def shutdown(self, how):
        point(self.ctx, "shutdown", self)
        self.shut = True

    def close(self):
        point(self.ctx, "close", self)
        self.closed = True

    def getpeername(self):
        return ("127.0.0.1", 5000)

    def __str__(self):
        return "<socket %s%s>" % (self.name, " [closed]" if self.closed else "")
    __repr__ = __str__
