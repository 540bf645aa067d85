"""Real transports over the real loopback network and over a pseudo terminal.

Same trace format as links.py; what needs a measurement of the link (bytes taken off it, time
spent) is not recorded. It shows that the simulated operating system is a fair one.
"""
import os
import pty
import socket
import struct
import threading
import tty

from . import record
from .record import call


class RealHistory:
    def __init__(self, note=""):
        from elgas import transport

        self.mod, self.note, self.ev, self.dead = transport, note, [], False

    def _add(self, e):
        self.ev.append(e)
        if e["out"]["k"] in ("hang", "exit", "skip"):
            self.dead = True
        return e["out"]

    def new(self, kind, timeout):
        self.kind = kind
        self.far = self.listener = None
        if kind == "tcp":
            self.listener = socket.socket()
            self.listener.bind(("127.0.0.1", 0))
            self.listener.listen(1)
            host, port = self.listener.getsockname()
            self.t = self.mod.BlockingTcpTransport(host=host, port=port, timeout=timeout)
        else:
            self.far, self.near = pty.openpty()
            tty.setraw(self.far)
            tty.setraw(self.near)
            host, port = os.ttyname(self.near), 9600
            self.t = self.mod.SerialTransport(port=host, baud_rate=port, timeout=timeout)
        self.endpoint = {"kind": kind, "host": record.val(host), "port": record.val(port), "timeout": record.val(timeout)}
        self._add({"op": "new", "c": 1, "out": {"k": "ok"},
                   "cfg": {"endpoint": self.endpoint, "timeout": int(timeout * 1000)}})

    def connect(self, ok=True):
        if not ok and self.kind == "tcp":
            self.listener.close()
        out = call(self.t.connect)
        if out["k"] == "ok" and self.kind == "tcp":
            self.listener.settimeout(5)
            self.far, _ = self.listener.accept()
        self._add({"op": "connect", "c": 1, "ok": int(ok), "opens": [self.endpoint], "out": out})

    def send(self, data):
        if self.dead:
            return
        box = []

        def reader():
            d = b""
            while len(d) < len(data):
                x = self.far.recv(65536) if self.kind == "tcp" else os.read(self.far, 65536)
                if not x:
                    break
                d += x
            box.append(d)

        if self.kind == "tcp":
            self.far.settimeout(5)
        th = threading.Thread(target=reader, daemon=True)
        th.start()
        out = call(lambda: self.t.send(bytes(data)))
        th.join(5)
        self._add({"op": "send", "c": 1, "d": list(data), "ok": 1, "w": list(box[0] if box else b""), "out": out})

    def recv(self, data=b"", fin=""):
        if self.dead:
            return
        if data:
            if self.kind == "tcp":
                self.far.sendall(data)
            else:
                os.write(self.far, data)
        if fin == "eof":
            if self.kind == "tcp":
                self.far.close()
            else:
                os.close(self.far)
        elif fin == "err":
            self.far.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.far.close()
        out = call(self.t.recv, lambda r: {"k": "bytes", "d": list(r)} if isinstance(r, (bytes, bytearray)) else {"k": "other"})
        self._add({"op": "recv", "c": 1, "feed": [[0, b] for b in data], "fin": fin, "used": -1, "t": 0, "w": [], "out": out})

    def disconnect(self, ok=True):
        if self.dead:
            return
        out = call(self.t.disconnect)
        closed = 1
        if self.kind == "tcp" and out["k"] == "ok":
            try:
                self.far.settimeout(2)
                closed = int(self.far.recv(10) == b"")
            except OSError:
                closed = 0
        self._add({"op": "disconnect", "c": 1, "ok": int(ok), "closed": closed, "out": out})

    def done(self):
        for x in (self.listener, self.far if self.kind == "tcp" else None):
            try:
                x and x.close()
            except OSError:
                pass
        return {"note": self.note, "ev": self.ev}


def histories(rnd, count, timeout):
    out = []
    for kind in ("tcp", "serial"):
        for i in range(count):
            h = RealHistory(f"real {kind}")
            h.new(kind, timeout)
            if i == 0 and kind == "tcp":
                h.connect(False)
                out.append(h.done())
                continue
            h.connect()
            big = bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 20, 300])))
            h.send(big + b"\x0d")
            for _ in range(0 if i % 4 == 2 or (i % 4 == 1 and kind == "serial") else 2):
                h.recv(bytes(rnd.choice([65, 13, 27, 0, 255, 3, 4, 17, 19, 26, 10, 127]) for _ in range(rnd.randrange(1, 9))) + b"\x0d")
                h.recv(b"" if rnd.random() < 0.5 else b"AB\x0d")
            if i % 4 == 1:
                h.recv(b"abc" if kind == "tcp" else b"", "eof")  # a pty drops unread bytes on hangup
                h.recv()
            elif i % 4 == 2 and kind == "tcp":
                h.recv(b"", "err")
            elif i % 4 == 3:
                h.recv()
                h.recv(b"\x0d")
                h.disconnect()
            else:
                h.disconnect()
            out.append(h.done())
    return out
