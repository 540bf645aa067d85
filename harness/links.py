"""A simulated operating system under the real transports, and the recorder of their histories.

The simulation replaces socket.create_connection, serial.Serial and the clock, for objects created
while a World is active. Its only job is to obey a script (when do bytes arrive, which call fails)
and to write down what was done to it; spec/Transport.tla says what should have been done.
"""
import os
import socket
import time

import serial

from . import record
from .record import call, digits

SPIN = 5000  # operating-system calls within one transport call before it counts as a hang

# how a serial line is opened unless told otherwise, in the order of the arguments
LINE = {"bytesize": 8, "parity": "N", "stopbits": 1, "timeout": None, "xonxoff": False, "rtscts": False,
        "write_timeout": None, "dsrdtr": False, "inter_byte_timeout": None, "exclusive": None}

WORLD = None
CLOCKS = ("monotonic", "time", "perf_counter")
_real = {n: getattr(time, n) for n in (*CLOCKS, "sleep")}


def _clock(name):
    def now():
        if not WORLD:
            return _real[name]() + record.ELAPSED
        return WORLD.clock / 1000.0 + 1000.0 + record.ELAPSED + (WORLD.wall if name == "time" else 0)

    return now


def _in_ns(now):
    return lambda: int(now() * 1e9)


def _sleep(s):
    if WORLD:
        WORLD.tick()
        WORLD.clock += int(s * 1000)
    else:
        _real["sleep"](s)


def install():
    """Must run before the library is imported."""
    for n in CLOCKS:
        setattr(time, n, _clock(n))
        setattr(time, n + "_ns", _in_ns(getattr(time, n)))
    time.sleep = _sleep
    real_create, real_serial = socket.create_connection, serial.Serial

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **kw):
        if WORLD is None:
            return real_create(address, timeout, *a, **kw)
        t = None if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout
        source = (a + (kw.get("source_address"),))[0]
        return WORLD.open(FakeSocket(WORLD, t, address, f"from {source}" if source else ""))

    def Serial(port=None, baudrate=9600, *a, **kw):
        if WORLD is None:
            return real_serial(port, baudrate, *a, **kw)
        link = FakeSerial(WORLD, port, baudrate, {**LINE, **dict(zip(LINE, a)), **kw})
        return link if port is None else WORLD.open(link)

    socket.create_connection = create_connection
    serial.Serial = Serial


ERRORS = {
    "tcp": [
        lambda: OSError(5, "Input/output error"),
        lambda: ConnectionResetError(104, "Connection reset by peer"),
        lambda: BrokenPipeError(32, "Broken pipe"),
        lambda: socket.timeout("timed out"),
        lambda: ConnectionRefusedError(111, "Connection refused"),
        lambda: OSError(113, "No route to host"),
        lambda: socket.gaierror(-2, "Name or service not known"),
        lambda: ConnectionAbortedError(103, "aborted"),
        lambda: PermissionError(13, "Permission denied"),
        *[lambda n=n: OSError(n, os.strerror(n)) for n in (9, 12, 22, 24, 32, 99, 101, 107, 108, 110, 112, 113)],
    ],
    "serial": [
        lambda: serial.SerialException("device reports readiness to read but returned no data"),
        lambda: OSError(5, "Input/output error"),
        lambda: FileNotFoundError(2, "No such file or directory"),
        lambda: PermissionError(13, "Permission denied"),
        lambda: serial.SerialTimeoutException("Write timeout"),
        lambda: serial.PortNotOpenError(),
        lambda: BrokenPipeError(32, "Broken pipe"),
        *[lambda n=n: OSError(n, os.strerror(n)) for n in (5, 6, 9, 16, 19, 22, 25, 32, 110)],
        *[lambda n=n: serial.SerialException(n, f"could not open port: {os.strerror(n)}") for n in (2, 13, 16, 19)],
    ],
}


class World:
    """Script and log of the operating system during one history."""

    def __init__(self, rnd):
        self.rnd = rnd
        self.clock = 0
        self.wall = 0  # the wall clock is set now and then
        self.fail_open = self.fail_close = self.fail_write = None
        self.opens, self.links, self.calls = [], [], 0
        self.spin = SPIN

    def tick(self):
        self.calls += 1
        if self.calls > self.spin:
            raise record.Hang()
        if self.calls % 7 == 3:
            self.wall += (-3600, 7200, -30, 15)[self.calls // 7 % 4]

    def open(self, link):
        self.tick()
        link.closed, link.at_open = True, link._t
        self.opens.append(link)
        if self.fail_open:
            raise self.fail_open()
        link.q, link.fin, link.closed = [], "open", False
        if link not in self.links:
            self.links.append(link)
        return link

    def opened(self):
        """What was opened, or should have been, as it is set now."""
        return [
            {"kind": x.kind, "host": record.val(x.where[0]), "port": record.val(x.where[1]), "line": x.line(),
             "timeout": record.val(-1 if x._t is None else x._t if x._t == x.at_open else f"{x.at_open}, {x._t}")}
            for x in self.opens
        ]


class Link:
    def __init__(self, world, timeout, where):
        self.world = world
        self._t, self.where = timeout, where
        self.q, self.fin, self.closed = [], "open", False
        self.written, self.used = bytearray(), 0

    # script
    def feed(self, feed, fin):
        t = max(self.world.clock, self.q[-1][0] if self.q else 0)
        for gap, b in feed:
            t += gap
            self.q.append((t, b))
        if fin:
            self.fin = fin

    # what both kinds need
    def _error(self):
        raise self.world.rnd.choice(ERRORS[self.kind])()

    def _wait(self, deadline):
        """Time passes until a byte is there, the link ends or the deadline; True if there is a byte."""
        w = self.world
        w.tick()
        if self.q:
            at = self.q[0][0]
            if deadline is None or at <= deadline:
                w.clock = max(w.clock, at)
                return True
            w.clock = max(w.clock, deadline)
            return False
        if self.fin != "open":
            return None
        if deadline is None:
            raise record.Hang()
        w.clock = max(w.clock, deadline)
        return False

    def _ready(self, n):
        """At most n of the bytes that are there already."""
        out = bytearray()
        while self.q and self.q[0][0] <= self.world.clock and len(out) < n:
            out.append(self.q.pop(0)[1])
        if len(out) > 1:  # the system may give less than asked
            k = self.world.rnd.randrange(1, len(out) + 1)
            self.q[:0] = [(self.world.clock, b) for b in out[k:]]
            out = out[:k]
        self.used += len(out)
        return bytes(out)


class FakeSocket(Link):
    kind = "tcp"

    def __init__(self, world, timeout, where, source=""):
        super().__init__(world, timeout, where)
        self.source = source

    def line(self):
        return self.source

    def settimeout(self, t):
        self._t = t

    def gettimeout(self):
        return self._t

    def setblocking(self, flag):
        self._t = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1 if self.closed else 1000

    def getpeername(self):
        self._check()
        if self.fin == "err":
            raise OSError(107, "Transport endpoint is not connected")
        return ("192.0.2.1", 1)

    def getsockname(self):
        self._check()
        return ("192.0.2.2", 40000)

    def getsockopt(self, *a):
        self._check()
        return 104 if self.fin == "err" else 0

    def detach(self):
        return 1000

    def _check(self):
        if self.closed:
            raise OSError(9, "Bad file descriptor")

    def recv(self, n, flags=0):
        self._check()
        ok = self._wait(None if self._t is None else self.world.clock + int(self._t * 1000))
        if ok:
            if flags & socket.MSG_PEEK:
                return bytes([self.q[0][1]])
            return self._ready(n)
        if ok is None:
            if self.fin == "eof":
                return b""
            self._error()
        if self._t == 0:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        raise socket.timeout("timed out")

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf), flags)
        buf[: len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        self._check()
        self.world.tick()
        if self.world.fail_write:
            raise self.world.fail_write()
        data = bytes(data)
        n = self.world.rnd.randrange(1, len(data) + 1) if data else 0
        self.written += data[:n]
        return n

    def sendall(self, data, flags=0):
        self._check()
        self.world.tick()
        data = bytes(data)
        if self.world.fail_write:
            self.written += data[: self.world.rnd.randrange(len(data) + 1)]
            raise self.world.fail_write()
        self.written += data

    def shutdown(self, how):
        self._check()
        self.world.tick()
        if self.world.fail_close and self.world.fail_close[0] == "shutdown":
            raise self.world.fail_close[1]()

    def close(self):
        self.world.tick()
        self.closed = True
        if self.world.fail_close and self.world.fail_close[0] == "close":
            raise self.world.fail_close[1]()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeSerial(Link):
    kind = "serial"

    def __init__(self, world, port, baudrate, kw):
        super().__init__(world, kw["timeout"], [port, baudrate])
        self.__dict__.update({k: v for k, v in kw.items() if k != "timeout"})
        self.closed = True

    def line(self):
        """Everything that decides which bytes pass, in one word."""
        flow = [k for k in ("xonxoff", "rtscts", "dsrdtr") if getattr(self, k)]
        return " ".join([f"{int(self.bytesize)}{self.parity}{float(self.stopbits):g}"] + flow)

    @property
    def port(self):
        return self.where[0]

    name = portstr = port

    @port.setter
    def port(self, port):
        self.where[0] = port

    @property
    def baudrate(self):
        return self.where[1]

    @baudrate.setter
    def baudrate(self, rate):
        self.where[1] = rate

    @property
    def timeout(self):
        return self._t

    @timeout.setter
    def timeout(self, t):
        self._t = t

    @property
    def is_open(self):
        return not self.closed

    @property
    def in_waiting(self):
        return sum(1 for at, _ in self.q if at <= self.world.clock)

    inWaiting = lambda self: self.in_waiting

    def _check(self):
        if self.closed:
            raise serial.PortNotOpenError()

    def read(self, size=1):
        """Up to size bytes, as many as come before the timeout."""
        self._check()
        out = b""
        deadline = None if self._t is None else self.world.clock + int(self._t * 1000)
        while len(out) < size:
            ok = self._wait(deadline)
            if ok is None:
                if out:
                    break
                self._error()
            if not ok:
                break
            out += self._ready(size - len(out))
            if size > 1 and self.world.rnd.random() < 0.3:
                break
        return out

    def read_until(self, expected=b"\n", size=None):
        line = bytearray()
        while True:
            c = self.read(1)
            if not c:
                break
            line += c
            if line[-len(expected):] == expected or (size is not None and len(line) >= size):
                break
        return bytes(line)

    def write(self, data):
        self._check()
        self.world.tick()
        data = bytes(data)
        if self.world.fail_write:
            self.written += data[: self.world.rnd.randrange(len(data) + 1)]
            raise self.world.fail_write()
        self.written += data
        return len(data)

    def flush(self):
        self._check()

    def reset_input_buffer(self):
        self._check()
        self.used += self.in_waiting
        self.q = [x for x in self.q if x[0] > self.world.clock]

    def reset_output_buffer(self):
        self._check()

    def cancel_read(self):
        pass

    def open(self):
        if not self.closed:
            raise serial.SerialException("Port is already open.")
        self.world.open(self)

    def close(self):
        self.world.tick()
        self.closed = True
        if self.world.fail_close:
            raise self.world.fail_close[1]()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------------------
class TransportHistory:
    """One recorded history over any number of transports."""

    def __init__(self, rnd, note=""):
        from elgas import transport

        self.mod, self.rnd, self.note = transport, rnd, note
        self.world = World(rnd)
        self.ev, self.ts, self.kinds, self.up, self.dead = [], [], [], [], False
        self.set_to = []
        record.begun(self)

    def _run(self, fn, project=lambda r: {"k": "ok"}):
        global WORLD
        self.world.calls = 0
        WORLD = self.world
        try:
            return call(fn, project)
        finally:
            WORLD = None

    def _add(self, e):
        self.ev.append(e)
        if e["out"]["k"] in ("hang", "exit", "skip"):
            self.dead = True
        return e["out"]

    def new(self, kind, host="192.0.2.7", port=4099, timeout=10, give=True):
        box = []

        def make():
            kw = {"timeout": timeout} if give else {}
            if kind == "tcp":
                box.append(self.mod.BlockingTcpTransport(host=host, port=port, **kw))
            else:
                box.append(self.mod.SerialTransport(port=host, baud_rate=port, **kw))

        out = self._run(make)
        self.ts.append(box[0] if box else None)
        self.kinds.append(kind)
        self.up.append(None)
        self.set_to.append((host, port, timeout if give else 10))
        self._add({"op": "new", "c": len(self.ts), "out": out, "cfg": self.cfg(len(self.ts))})
        if out["k"] != "ok":
            self.dead = True
        return len(self.ts)

    def cfg(self, c):
        host, port, t = self.set_to[c - 1]
        return {
            "endpoint": {"kind": self.kinds[c - 1], "host": record.val(host), "port": record.val(port),
                         "line": "8N1" if self.kinds[c - 1] == "serial" else "", "timeout": record.val(-1 if t is None else t)},
            "timeout": -1 if t is None else int(t * 1000),
        }

    def change(self, host=None, port=None, timeout=Ellipsis, c=1):
        """Another endpoint, as the next connect is to open it; another timeout, while there is no link."""
        if self.dead:
            return {"k": "dead"}
        t, old = self.ts[c - 1], self.set_to[c - 1]
        new = (old[0] if host is None else host, old[1] if port is None else port,
               old[2] if timeout is Ellipsis or self.up[c - 1] else timeout)

        def run():
            names = ("host", "port", "timeout") if self.kinds[c - 1] == "tcp" else ("port", "baud_rate", "timeout")
            for name, a, b in zip(names, old, new):
                if a != b:
                    setattr(t, name, b)

        out = self._run(run)
        self.set_to[c - 1] = new
        return self._add({"op": "set", "c": c, "cfg": self.cfg(c), "out": out})

    def _fault(self, c):
        return self.rnd.choice(ERRORS[self.kinds[c - 1]])

    def connect(self, ok=True, c=1):
        if self.dead:
            return {"k": "dead"}
        w = self.world
        w.fail_open, w.opens = (None if ok else self._fault(c)), []
        out = self._run(self.ts[c - 1].connect)
        w.fail_open = None
        if w.opens and out["k"] == "ok" and not w.opens[-1].closed:
            self.up[c - 1] = w.opens[-1]
        return self._add({"op": "connect", "c": c, "ok": int(ok), "opens": w.opened(), "out": out})

    def disconnect(self, ok=True, c=1):
        if self.dead:
            return {"k": "dead"}
        w, link = self.world, self.up[c - 1]
        if not ok:
            where = self.rnd.choice(["shutdown", "close"]) if self.kinds[c - 1] == "tcp" else "close"
            w.fail_close = (where, self._fault(c))
        out = self._run(self.ts[c - 1].disconnect)
        w.fail_close = None
        self.up[c - 1] = None
        return self._add({"op": "disconnect", "c": c, "ok": int(ok), "closed": int(bool(link and link.closed)), "out": out})

    def send(self, data, ok=True, c=1):
        if self.dead:
            return {"k": "dead"}
        w = self.world
        before = [len(x.written) for x in w.links]
        w.fail_write = None if ok else self._fault(c)
        out = self._run(lambda: self.ts[c - 1].send(bytes(data)))
        w.fail_write = None
        link = self.up[c - 1]
        written = b"".join(bytes(x.written[b:]) for x, b in zip(w.links, before) if x is link or x.written[b:])
        return self._add({"op": "send", "c": c, "d": list(data), "ok": int(ok), "w": list(written), "out": out})

    def recv(self, feed=(), fin="", c=1, fn=None, how=None):
        if self.dead:
            return {"k": "dead"}
        w, link = self.world, self.up[c - 1]
        if link:
            link.feed(feed, fin)
        used, wrote, t = [x.used for x in w.links], [len(x.written) for x in w.links], w.clock
        out = self._run(
            fn or self.ts[c - 1].recv,
            lambda r: {"k": "bytes", "d": list(r)} if isinstance(r, (bytes, bytearray)) else {"k": "other"},
        )
        return self._add({
            "op": "recv", "c": c, "feed": [list(x) for x in feed], "fin": fin,
            "used": sum(x.used - u for x, u in zip(w.links, used)), "t": w.clock - t,
            "w": [b for x, n in zip(w.links, wrote) for b in x.written[n:]], "out": out, **(how or {}),
        })

    def until(self, until, size=0, feed=(), fin="", c=1):
        """recv_until with another end."""
        if not hasattr(self.ts[c - 1], "recv_until"):
            return {"k": "ok"}
        fn = lambda: self.ts[c - 1].recv_until(*((bytes(until), size) if size else (bytes(until),)))
        return self.recv(feed, fin, c, fn, {"op": "until", "until": list(until), "size": size})

    def json(self):
        return record.finished(self, "TraceTransport", {"note": self.note, "ev": self.ev})
