"""Checks of the transports (C13, C14)."""
import json

from . import device as dv, focus, links, realos, validate
from .checks import around, check

FEEDS = {  # the alphabet of spec/MCTransport.tla
    "line": ([(3, 65), (0, 27), (7, 13)], ""),
    "two": ([(0, 65), (0, 13), (0, 66), (0, 67), (1, 13)], ""),
    "slow": ([(6000, 65), (6000, 66), (500, 67), (100, 13)], ""),
    "part": ([(5, 65), (5, 66)], ""),
    "late": ([(5, 65), (15000, 67), (1, 13)], ""),
    "none": ([], ""),
    "eof": ([(2, 65)], "eof"),
    "err": ([(2, 65)], "err"),
}
LIFE = ["recv-not-delivered", "recv-bytes", "recv-consumes-too-much", "recv-duration", "recv-writes",
        "recv-blocks-too-long", "send-bytes"]  # C14's business
DATA = ["connect-opens-second-link", "connect-RuntimeError", "connect-CommunicationError",
        "disconnect-leaves-link-open", "disconnect-CommunicationError", "disconnect-ok", "send-RuntimeError",
        "send-CommunicationError", "recv-RuntimeError"]  # C13's business


def model_histories(c, want):
    tests = c.tests("MCTransport", "MCTransport_deep" if c.thorough else None)
    tests = [t for t in tests if want(t)]
    out = []
    for i, t in enumerate(tests):
        for kind in ("tcp", "serial"):
            h = links.TransportHistory(dv.rng(c.seed, "mct", i, kind), "model: " + " ".join(e["x"] for e in t))
            h.new(kind)
            for e in t:
                if e["op"] == "recv":
                    h.recv(*FEEDS[e["x"]])
                elif e["op"] == "set":
                    h.change("other.example" if e["x"] == "other" else "192.0.2.7", 4100 if e["x"] == "other" else 4099)
                elif e["op"] == "send":
                    h.send(bytes([2, 254, 13, i % 256, 13]), e["x"] == "ok")
                else:
                    getattr(h, e["op"])(e["x"] == "ok")
            # what state is it in now?
            h.send(b"\x01\x0d")
            h.connect()
            h.recv(*FEEDS["line"])
            h.disconnect()
            out.append(h.json())
    return out


def rand_new(h, rnd, twin=0.0):
    if h.ts and rnd.random() < twin:  # the same endpoint once more
        k = rnd.randrange(len(h.ts))
        return h.new(h.kinds[k], *h.set_to[k])
    kind = rnd.choice(["tcp", "serial"])
    t = rnd.choice([1, 10, 3, 2.5, 30, 0.25, 300, 3600, None])
    k = focus.get().number(rnd, 100000, 0.2)
    t = k if k else t
    if rnd.random() < 0.05:
        t = 0  # only what is there already
    if rnd.random() < 0.2:
        return h.new(kind, give=False)
    if kind == "tcp":
        return h.new(kind, rnd.choice(["192.0.2.7", "meter.example", "::1", "localhost"]), dv.pick(rnd, rnd.randrange(1, 65536), 65536) or 1, t)
    return h.new(kind, rnd.choice(["/dev/ttyUSB0", "COM7", "/dev/ttyS13"]), rnd.choice([300, 9600, 19200, 38400]), t)


def rand_change(h, rnd, c=1):
    what = rnd.randrange(4)
    tcp = h.kinds[c - 1] == "tcp"
    host = rnd.choice(["192.0.2.8", "other.example"]) if tcp else rnd.choice(["/dev/ttyUSB1", "COM8"])
    port = rnd.randrange(1, 65536) if tcp else rnd.choice([600, 1200, 57600])
    h.change(host if what in (0, 3) else None, port if what in (1, 3) else None,
             rnd.choice([1, 2, 5, 60, 900]) if what in (2, 3) else ..., c)


def rand_feed(rnd, pace=None, size=None):
    pace = pace or rnd.choice(["now", "fast", "mixed", "slow"])
    gap = {
        "now": lambda: 0,
        "fast": lambda: 7 * rnd.choice([0, 0, 0, 1, 5]),
        "mixed": lambda: 7 * rnd.choice([0, 0, 0, 0, 3, 100, 600, 3000]),
        "slow": lambda: 7 * rnd.choice([50, 90, 130]),
    }[pace]
    n = dv.size(rnd, rnd.choice([0, 1, 2, 5, 20])) if size is None else size
    alphabet = rnd.choice([[13, 65], [65, 27, 141, 14, 15], list(range(256))])
    d = [rnd.choice(alphabet) for _ in range(n)]
    if focus.get():
        d = [dv.pick(rnd, b, 256, 0.15) for b in d]
        b = focus.get().blob(rnd)
        if b and rnd.random() < 0.5:
            d = (d + list(b)) if rnd.random() < 0.5 else list(b) + d
    if rnd.random() < 0.75:
        d.append(13)
    return [(gap(), b) for b in d]


@check
def C13(c):
    c.validate("TraceTransport", model_histories(c, lambda t: True), LIFE, "histories of MCTransport performed by both transports")
    hs = []
    for i in range(c.n(1200, 20000)):
        hs.append(lives(dv.rng(c.seed, "C13", i), 1 if i % 3 else 2))
    c.validate("TraceTransport", hs, LIFE, "random histories with faults")
    real(c, LIFE, 12)


def lives(rnd, n):
    """A random history of n transports."""
    h = links.TransportHistory(rnd, "random life")
    for _ in range(n):
        rand_new(h, rnd, 0.6)
    bad = rnd.choice([0.1, 0.4])
    for _ in range(rnd.randrange(4, 25)):
        k = rnd.randrange(1, n + 1)
        op = rnd.choice(["connect", "connect", "send", "recv", "disconnect"])
        if rnd.random() < 0.08:
            rand_change(h, rnd, k)
        if op == "recv":
            if h.up[k - 1] and h.up[k - 1].fin == "open" or not h.up[k - 1]:
                x = rnd.random()
                # without a timeout nothing may be left open, or the call would rightly never end
                h.recv(rand_feed(rnd, "now", 3) + [(0, 13)], "err" if x < bad / 2 else "eof" if x < bad else "", k)
            else:
                h.recv(c=k)
        elif op == "send":
            h.send(dv.rand_bytes(rnd, dv.size(rnd, rnd.choice([0, 1, 5, 40]))), rnd.random() > bad, k)
        else:
            getattr(h, op)(rnd.random() > bad, k)
    return h.json()


def real(c, ignore, count):
    """The real loopback network and a pseudo terminal; once more, with more time, where it was rejected."""
    hs = realos.histories(dv.rng(c.seed, "real", c.pid), c.n(count, 4 * count), 0.5)
    if validate.validate("TraceTransport", hs, ignore).bad:
        hs = realos.histories(dv.rng(c.seed, "real", c.pid), c.n(count, 4 * count), 3.0)
    c.validate("TraceTransport", hs, ignore, "loopback sockets and pseudo terminals")


@check
def C14(c):
    c.validate(
        "TraceTransport", model_histories(c, lambda t: any(e["op"] in ("recv", "send") for e in t)), DATA,
        "histories of MCTransport performed by both transports")
    hs = []
    for i in range(c.n(1500, 25000)):
        rnd = dv.rng(c.seed, "C14", i)
        h = links.TransportHistory(rnd, "random streams")
        rand_new(h, rnd)
        h.connect()
        forever = h.ev[0]["cfg"]["timeout"] == -1
        for _ in range(rnd.randrange(2, 9)):
            x = rnd.random()
            if x < 0.2:
                h.send(dv.rand_bytes(rnd, dv.size(rnd, rnd.choice([1, 5, 40, 300]))), rnd.random() < 0.9)
            elif x < 0.9:
                f = rand_feed(rnd)
                h.recv(f + [(7, 13)] if forever else f)
            elif x < 0.95:
                h.recv(rand_feed(rnd), rnd.choice(["eof", "err"]))
                for _ in range(rnd.randrange(1, 4)):
                    h.recv()
                break
            else:
                h.disconnect()
                if rnd.random() < 0.5:
                    rand_change(h, rnd)
                    forever = h.cfg(1)["timeout"] == -1
                h.connect()
        hs.append(h.json())
    # a failure or silence at every byte position
    for kind in ("tcp", "serial"):
        for n in range(c.n(14, 60)):
            for fin in ("eof", "err", ""):
                rnd = dv.rng(c.seed, "C14pos", n, fin, kind)
                h = links.TransportHistory(rnd, "end of the stream after n bytes")
                h.new(kind)
                h.connect()
                h.recv([(7 * rnd.randrange(3), rnd.choice([1, 27, 141])) for _ in range(n)], fin)
                h.recv([], "")
                if fin == "":
                    h.recv([(7, 66), (7, 13)])
                h.disconnect()
                h.connect()
                h.recv([(7, 66), (0, 13), (0, 67)])
                hs.append(h.json())
        for n in [100, 1000, 4000, 140000] + c.n([], [70000]) + [x for x in around(150000) if x > 4000][: c.n(3, 10)]:
            for pace in ("now", "fast") if n < 30000 else ("now",):
                rnd = dv.rng(c.seed, "C14long", n, kind)
                h = links.TransportHistory(rnd, "long lines")
                h.world.spin = 5000 + 4 * n
                h.new(kind, timeout=1000)
                h.connect()
                h.send(dv.rand_bytes(rnd, n))
                h.recv([(7 if pace == "fast" and rnd.random() < 0.1 else 0, rnd.randrange(14, 256)) for _ in range(n)] + [(0, 13), (0, 65), (0, 13)])
                h.recv()
                hs.append(h.json())
    for i in range(c.n(400, 6000)):  # other ends than 0x0d
        rnd = dv.rng(c.seed, "C14until", i)
        h = links.TransportHistory(rnd, "other ends")
        rand_new(h, rnd)
        if rnd.random() < 0.95:
            h.connect()
        forever = h.ev[0]["cfg"]["timeout"] == -1
        for _ in range(rnd.randrange(2, 7)):
            f = rand_feed(rnd)
            if rnd.random() < 0.3:
                h.recv(f + [(7, 13)] if forever else f)
                continue
            end = rnd.choice([b"\r\n", b"\n", b"\x00\x00", bytes([rnd.randrange(256)]), b"ABC", b"\r\r", b"\r"])
            size = rnd.choice([0, 0, 1, 2, 5, 13, 40])
            if rnd.random() < 0.7:
                f += [(7 * rnd.randrange(3), b) for b in end]
            if rnd.random() < 0.5:
                f += rand_feed(rnd, "now", 4)
            if forever:
                f += [(0, b) for b in end]
            h.until(end, size, f, rnd.choice(["eof", "err"]) if rnd.random() < 0.05 else "")
            if h.up[0] and h.up[0].fin != "open":
                break
        hs.append(h.json())
    c.validate("TraceTransport", hs, DATA, "random streams, paces and ends")
    real(c, DATA, 16)
