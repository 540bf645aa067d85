"""The checks, one per property."""
import itertools

from . import calls, device as dv, focus, records, wire
from . import session
from .session import Cfg, History, Req

WIRE = [
    "wire-end-char", "wire-reserved-char", "wire-escaping", "wire-service", "wire-destination",
    "wire-source", "wire-payload", "wire-padding",
] + ["wire-frame-" + x for x in ("start", "end", "short", "service", "length", "lrc", "sum", "drc")] + [
    "wire-envelope-" + x for x in ("short", "keyid", "blocks", "crc", "length")
]
CONTENT = ["response-fields", "delivered-value-changed", "returned-value-changed"]

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


# ---------------------------------------------------------------------------
# sessions
# ---------------------------------------------------------------------------
def plain_cfg():
    return Cfg(1, 2, 3, 4)


def probe(h, c=1):
    """Make hidden state visible: complete what is pending, then two normal exchanges."""
    cfg = h.cfgs[c - 1]
    h.drain(c)
    h.recv(b"\x0d", c)
    h.drain(c)
    # answer whatever may still be awaited
    for kind in dv.KINDS:
        h.recv(wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher), c)
        out = h.next(c)
        if out["k"] == "pdu":
            break
    for kind in ("params", "time"):
        h.send(Req(kind, x=3, y=4), c)
        h.recv(wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher), c)
        h.drain(c)


PROBE = {
    "values": wire.time_bytes((2030, 5, 6, 7, 8, 9)) + bytes(range(40)),
    "time": wire.time_bytes((2031, 5, 6, 7, 8, 9)) + bytes(range(10)),
    "write": b"\0",
    "params": b"\x0d\0\x01\0\x01" + bytes(range(9)),
    "byid": b"\x01\x02\x03\x04\x05" + bytes(range(9)),
    "bytime": b"\x02\x02\x03\x04\x05" + bytes(range(9)),
}


def model_tests(c, enc):
    """All transitions of MCSession as test histories, with their alphabet."""
    import json
    import re

    name = "MCSession_" + ("enc" if enc else "plain")
    r = c.model("MCSession", name)
    un = lambda s: json.loads(json.loads('"' + s + '"'))
    alphabet = un(re.search(r'^"ALPHABET (.*)"$', r.out, re.M).group(1))
    tests = [un(m) for m in re.findall(r'^"TEST (.*)"$', r.out, re.M)]
    return alphabet, sorted(tests, key=lambda t: (len(t), [(e["op"], e["x"]) for e in t]))


def from_model(alphabet, test, prober=probe):
    """One behaviour of MCSession performed by a real connection."""
    a = alphabet["cfg"]
    n = lambda v: sum(d << (8 * i) for i, d in enumerate(v["d"]))
    cfg = Cfg(n(a["d1"]), n(a["d2"]), n(a["s1"]), n(a["s2"]), bytes(a["key"]) or None, a["kid"] or None)
    h = History("model: " + " ".join(e["x"] or e["op"] for e in test))
    h.new(cfg)
    for e in test:
        if e["op"] == "send":
            r = alphabet["requests"][e["x"]]
            h.send(
                Req(r["k"], "".join(map(chr, r["pw"]["d"])), n(r["a"]), n(r["x"]), n(r["y"]), tuple(r["tm"]["d"]))
            )
        elif e["op"] == "recv":
            h.recv(bytes(alphabet["chunks"][e["x"]]))
        else:
            h.next()
    prober(h)
    return h.json()


def run_model(c, enc, count, want=lambda t: True, ignore=()):
    alphabet, tests = model_tests(c, enc)
    tests = [t for t in tests if want(t)]
    rnd = dv.rng(c.seed, "model", enc)
    if not c.thorough and len(tests) > count:
        tests = rnd.sample(tests, count)
    c.validate(
        "TraceSession",
        [from_model(alphabet, t) for t in tests],
        ignore,
        f"transitions of MCSession ({'with' if enc else 'without'} key) performed by a connection",
    )


def exchange(h, rnd, kind=None, c=1, before=(), size=None, polls=True, style=None):
    """A request, anything before the answer, the answer, cut into chunks."""
    cfg = h.cfgs[c - 1]
    r = dv.rand_req(rnd, kind)
    h.send(r, c)
    data = b"".join(before) + dv.good(rnd, cfg, r.k, size)
    for part in dv.cuts(rnd, data, style):
        h.recv(part, c)
        if polls and rnd.random() < 0.4:
            h.next(c)
    h.drain(c)


def wander(h, rnd, steps, c=1, bad=0.5):
    """A random history."""
    cfg = h.cfgs[c - 1]
    pending, awaited = b"", None
    for _ in range(steps):
        x = rnd.random()
        if x < 0.2:
            r = dv.bad_req(rnd) if rnd.random() < 0.25 else dv.rand_req(rnd)
            if rnd.random() < 0.05:
                r = Req(rnd.choice(["object", "response-pdu"]))
            if h.send(r, c)["k"] == "bytes":
                awaited = r.k
        elif x < 0.35 and pending:
            n = rnd.randrange(1, len(pending) + 1)
            h.recv(pending[:n], c)
            pending = pending[n:]
        elif x < 0.6:
            h.next(c)
        elif x < 0.62:
            h.recv(b"", c)
        else:
            y = rnd.random()
            if y < bad * 0.5:
                t = dv.skipped(rnd, cfg)
            elif y < bad * 0.7:
                t = dv.foreign(rnd, cfg, awaited)
            elif y < bad * 0.8:
                k = awaited or rnd.choice(dv.KINDS)
                t = dv.answer(rnd, cfg, wire.SVC[k], dv.bad_payload(rnd, k))
            elif y < bad:
                t = dv.error(rnd, cfg)
            else:
                t = dv.good(rnd, cfg, awaited or rnd.choice(dv.KINDS))
            if pending or rnd.random() < 0.4:
                pending += t
            else:
                for part in dv.cuts(rnd, t):
                    h.recv(part, c)
    if pending:
        h.recv(pending, c)


def wander_histories(c, what, count, steps, enc=None, bad=0.5):
    out = []
    for i in range(count):
        rnd = dv.rng(c.seed, what, i)
        h = History(f"{what} {i}")
        h.new(dv.rand_cfg(rnd, enc))
        wander(h, rnd, rnd.randrange(3, steps), bad=bad)
        probe(h)
        out.append(h.json())
    return out


def long_lives(c, what, modes, ignore=(), enc=None):
    """Connections that do the same thing many times."""
    hs = []
    for mode in modes:
        for j, n in enumerate([40, c.n(270, 1100)] + [dv.pick(dv.rng(c.seed, what, k), 0, 2000, 1) for k in range(3)]):
            if not n:
                continue
            rnd = dv.rng(c.seed, "long", what, mode, j)
            cfg = dv.rand_cfg(rnd, enc if enc is not None else j % 2 == 1)
            h = History(f"{n} times {mode}")
            h.new(cfg)
            kind = rnd.choice(dv.KINDS)
            together = b""
            for i in range(n):
                if mode == "exchange":
                    exchange(h, rnd, kind if j % 2 else None, size=3, polls=False, style=0)
                    continue
                if mode == "refused":
                    h.send(dv.rand_req(rnd, kind))
                    continue
                if mode == "badsend":
                    h.send(dv.bad_req(rnd))
                    continue
                if i == 0 and j % 2 and mode != "together":
                    h.send(dv.rand_req(rnd, kind))
                if mode == "poll":
                    h.next()
                elif mode == "endchar":
                    h.recv(b"\x0d")
                elif mode == "error":
                    h.send(dv.rand_req(rnd, kind))
                    h.recv(dv.error(rnd, cfg, None, wire.SVC[kind]))
                    h.next()
                elif mode == "foreign":
                    h.recv(dv.answer(rnd, cfg, rnd.choice(wire.OTHER_SVC), b"12"))
                    h.next()
                elif mode == "skip":
                    h.recv(dv.skipped(rnd, cfg))
                    if i % 3 == 0:
                        h.next()
                elif mode == "together":  # all of it in one delivery
                    together += dv.noise(rnd)
                elif mode == "envelope":
                    h.recv(dv.bad_envelope(rnd, cfg, kind) if cfg.cipher else dv.noise(rnd))
                    h.next()
                elif mode == "bytes":
                    h.recv(bytes([rnd.randrange(14, 256)]))
                    h.next()
            if together:
                h.send(dv.rand_req(rnd, kind))
                h.recv(together + dv.good(rnd, cfg, kind))
                h.next()
            probe(h)
            hs.append(h.json())
    c.validate("TraceSession", hs, ignore, "long lives")


# ---------------------------------------------------------------------------
def around(limit):
    """Numbers that mean something to the code."""
    return [n for n in focus.get().near if n < limit][:60]


@check
def C01(c):
    c.model("MCEscape", "MCEscape_deep" if c.thorough else None)
    c.model("MCEscapeAny")
    rnd = dv.rng(c.seed, "C01")
    evs = []
    alphabet = [13, 27, 141, 14, 15, 65]
    strings = [bytes(t) for n in range(c.n(5, 6)) for t in itertools.product(alphabet, repeat=n)]
    strings += [bytes([b]) for b in range(256)]
    strings += [bytes(p) for b in range(256) for r in dv.RESERVED for p in ((b, r), (r, b))]
    strings += [dv.rand_bytes(rnd, rnd.choice([6, 10, 30, 100]), 0.6) for _ in range(c.n(1500, 4000))]
    strings += [dv.rand_bytes(rnd, 3000, 0.3), bytes([27]) * 1000, bytes([13]) * 1000]
    for n in around(5000):
        strings += [dv.rand_bytes(rnd, n, r) for r in (0, 0.3, 1)] + [bytes([b]) * n for b in dv.RESERVED]
    for s in strings:
        t = s + b"\x0d"
        evs.append(calls.hist(calls.esc(t), calls.unesc(wire.escape(t))))
        if len(s) < 4:  # refused unless it happens to end with the end character
            evs.append(calls.hist(calls.esc(s)))
    for i in range(c.n(500, 3000)):  # one after the other
        s = dv.rand_bytes(rnd, dv.size(rnd, rnd.choice([5, 17, 20, 33, 60])), rnd.choice([0.1, 0.5]))
        ev = []
        for _ in range(5):
            ev += [calls.esc(s + b"\x0d"), calls.unesc(wire.escape(s + b"\x0d"))]
            s = dv.twin(rnd, s)
        evs.append(calls.hist(*ev))
    c.validate("TraceCalls", evs, what="escape_characters / return_characters")
    hs = []
    for i in range(c.n(400, 1500)):
        rnd = dv.rng(c.seed, "C01", i)
        h = History("reserved characters in requests and answers")
        cfg = dv.rand_cfg(rnd, i % 3 == 0)
        h.new(cfg)
        for kind in dv.KINDS:
            h.send(Req(kind, "".join(chr(rnd.choice(dv.RESERVED)) for _ in range(6)), rnd.randrange(11),
                       rnd.choice([13, 27, 141, 3355, 0x1B0E, 0x0D1B]), rnd.choice([13, 27, 141, 3355]),
                       (2013, 12, 13, 13, 13, 13)))
            h.recv(dv.answer(rnd, cfg, wire.SVC[kind], PROBE[kind] + dv.rand_bytes(rnd, 20, 0.9)))
            h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, [x for x in WIRE if x not in ("wire-end-char", "wire-reserved-char", "wire-escaping")],
               "escaping in requests and answers of whole exchanges")


def damaged_frames(c, rnd, full):
    """Bytes to offer as response frames."""
    out = []
    base = [wire.frame(t, s, d, (rnd.randrange(65536), rnd.randrange(256)), (rnd.randrange(65536), rnd.randrange(256)))
            for t in (wire.RESP, wire.ENCRESP)
            for s, d in ((0x6C, b""), (0x64, dv.rand_bytes(rnd, 3)), (0x70, dv.rand_bytes(rnd, 17)), (0x7C, b"\0" * 8))]
    for f in base:
        out.append(f)
        vals = range(256) if full else None
        for i in range(len(f)):
            for v in vals or {f[i] ^ 1, f[i] ^ 0x80, f[i] ^ 0xFF, 0, 13, rnd.randrange(256)}:
                if v != f[i]:
                    out.append(f[:i] + bytes([v]) + f[i + 1 :])
        for i in range(len(f)):
            out.append(f[:i])
            out.append(f[i:])
            out.append(f[:i] + f[i + 1 :])
            out.append(f[:i] + bytes([rnd.choice([0, 13, f[i]])]) + f[i:])
            out.append(f[:i] + b"\x0d")
        for x in (b"\0", b"\x0d", b"\x02", f):
            out += [f + x, x + f, f[:-1] + x + b"\x0d"]
        for b in range(256) if full or f in (base[1], base[6]) else ():  # one or two bytes more
            x = bytes([b])
            out += [f + x, x + f, f[:-1] + x + f[-1:], f[:1] + x + f[1:]]
            x = bytes([b, rnd.choice([b, 10, 13, 0])])
            out += [f + x, x + f, f[:-1] + x[::-1]]
        # exactly one / two of the three redundancy bytes wrong
        for bad in itertools.product((0, 1), repeat=3):
            g = bytearray(f)
            for k in range(3):
                if bad[k]:
                    g[-4 + k] ^= rnd.randrange(1, 256)
            out.append(bytes(g))
        # damage that some of the redundancy functions cannot see
        body = range(6, len(f) - 4)
        for i in body:
            for j in body:
                if i < j:
                    g = bytearray(f)
                    g[i], g[j] = g[j], g[i]  # LRC and SUM stay
                    out.append(bytes(g))
                    g = bytearray(f)
                    g[i] ^= 0x10
                    g[j] ^= 0x10  # LRC stays
                    out.append(bytes(g))
                    g = bytearray(f)
                    g[i] = (g[i] + 1) & 255
                    g[j] = (g[j] - 1) & 255  # SUM stays
                    out.append(bytes(g))
                    g = bytearray(f)  # DRC stays: the later byte undoes the rotated change
                    x = 1
                    for _ in range(j - i):
                        x = ((x << 1) | (x >> 7)) & 255
                    g[i] ^= 1
                    g[j] ^= x
                    out.append(bytes(g))
    for s in list(range(0, 256, c.n(5, 1))) + list(wire.SVC.values()) + wire.OTHER_SVC:
        out.append(wire.frame(wire.RESP, s, b"abc"))
    for t in range(0, 256, c.n(5, 1)):
        out.append(wire.frame(t, 0x6C, b"abc"))
    for t in (wire.REQ, wire.ENCREQ):
        out.append(wire.frame(t, 0x6C, b"abc"))
    for d in (b"", b"abc", bytes(300)):
        for ln in (0, 1, 14, 15, 16, len(d) + 14, len(d) + 15, len(d) + 16, len(d) + 15 + 256, 65535, 15 + 256):
            out.append(wire.frame(wire.RESP, 0x6C, d, length=ln))
            out.append(wire.frame(wire.ENCRESP, 0x6C, d, length=ln))
    out += dv.tiny_frames() + dv.crossed_tail() + dv.crossed_tail(0x64, wire.ENCRESP)
    for n in [255 - 15, 256 - 15, 241, 255, 256, 1000, c.n(3000, 20000)] + around(5000):
        out.append(wire.frame(wire.RESP, 0x70, dv.rand_bytes(rnd, n)))
        for v in (n, n - 1, n + 1, n ^ 0x100):
            out.append(wire.frame(wire.RESP, 0x70, dv.rand_bytes(rnd, n), length=v & 0xFFFF))
    for n in around(256):
        out += [wire.frame(t, s, dv.rand_bytes(rnd, 5)) for t, s in ((wire.RESP, n), (n, 0x6C))]
        f = wire.frame(wire.RESP, 0x6C, dv.rand_bytes(rnd, 5))
        out += [f[:i] + bytes([n]) + f[i + 1 :] for i in range(len(f))]
    return out


def coincidences(rnd, count):
    """Frames whose redundancy codes are alike or special, each code damaged in turn."""
    want = [lambda l, s, d: l == s, lambda l, s, d: l == d, lambda l, s, d: s == d]
    for v in (0, 1, 2, 13, 27, 141, 127, 128, 255):
        want += [lambda l, s, d, v=v: l == v, lambda l, s, d, v=v: s == v, lambda l, s, d, v=v: d == v]
    out = []
    for w in want:
        found = tries = 0
        while found < count and tries < 100000:
            tries += 1
            f = wire.frame(rnd.choice([wire.RESP, wire.ENCRESP]), rnd.choice(list(wire.SVC.values())),
                           dv.rand_bytes(rnd, rnd.randrange(6), 0))
            codes = tuple(f[-4:-1])
            if not w(*codes):
                continue
            found += 1
            out.append(f)
            for k in range(3):
                for v in {codes[(k + 1) % 3], codes[(k + 2) % 3], 0, 255, codes[k] ^ 255, (codes[k] + 1) & 255,
                          rnd.randrange(256)} - {codes[k]}:
                    g = bytearray(f)
                    g[-4 + k] = v
                    out.append(bytes(g))
            for bad in itertools.product((0, 1), repeat=3):
                if sum(bad) > 1:
                    g = bytearray(f)
                    x = rnd.randrange(1, 256)
                    for k in range(3):
                        g[-4 + k] ^= x * bad[k]
                    out.append(bytes(g))
            i = rnd.randrange(6, len(f)) if len(f) > 10 else 3
            g = bytearray(f)
            g[i if i < len(f) - 4 else 3] ^= 1 << rnd.randrange(8)
            out.append(bytes(g))
    return out


@check
def C02(c):
    c.model("MCFrame", "MCFrame_deep" if c.thorough else None)
    c.model("MCRedundancy")
    rnd = dv.rng(c.seed, "C02")
    evs = []
    for b in damaged_frames(c, rnd, c.thorough):
        e = [calls.resp(b)]
        if len(b) > 2:
            e.append(calls.dec(wire.RESP if b[2] == wire.RESP else wire.ENCRESP, b))
        evs.append(calls.hist(*e))
        if len(b) > 2 and (c.thorough or rnd.random() < 0.25):  # the same as a request
            q = bytearray(b)
            kind = wire.REQ if b[2] == wire.RESP else wire.ENCREQ
            if b[2] in (wire.RESP, wire.ENCRESP):
                q[2] = kind
                if len(b) > 6:  # the change of the type makes up for itself
                    q[-4] ^= b[2] ^ kind
                    q[-3] = (q[-3] + kind - b[2]) & 255
                    x = b[2] ^ kind
                    for _ in range((len(b) - 4 - 2 - 1) % 8):
                        x = ((x << 1) | (x >> 7)) & 255
                    q[-2] ^= x
            evs.append(calls.hist(calls.dec(kind, bytes(q))))
    for i in range(c.n(800, 3000)):
        f = wire.unescape(dv.damage(rnd, wire.escape(wire.frame(wire.RESP, 0x6C, dv.rand_bytes(rnd, rnd.randrange(40))))))
        evs.append(calls.hist(calls.resp(f)))
    for b in coincidences(rnd, c.n(3, 40)):
        evs.append(calls.hist(calls.resp(b)))
    there = [fn for fn in ("lrc", "sum", "drc", "crc") if calls._red(fn)]
    for fn in there[:3]:
        for a in range(256):
            evs.append(calls.hist(calls.redtab(fn, bytes([a]))))
        for a in range(c.n(120, 2000)):
            evs.append(calls.hist(calls.redtab(fn, dv.rand_bytes(rnd, rnd.randrange(2, 6)))))
    for fn in there:
        for d in [b""] + [bytes([b]) for b in range(256)] + [dv.rand_bytes(rnd, rnd.randrange(2, 80)) for _ in range(100)]:
            evs.append(calls.hist(calls.red(fn, d)))
    c.validate("TraceCalls", evs, what="damaged frames offered to the frame decoders")
    hs = []
    for i in range(c.n(200, 600)):
        rnd = dv.rng(c.seed, "C02s", i)
        h = History("damaged response in a session")
        cfg = dv.rand_cfg(rnd, i % 4 == 0)
        h.new(cfg)
        kind = dv.KINDS[i % 6]
        h.send(dv.rand_req(rnd, kind))
        for _ in range(6):
            h.recv(dv.damage(rnd, dv.good(rnd, cfg, kind)))
            h.drain()
        h.recv(dv.good(rnd, cfg, kind))
        h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE + CONTENT, "damaged responses received by a connection")


@check
def C03(c):
    c.model("MCFrame", "MCFrame_deep" if c.thorough else None)
    rnd = dv.rng(c.seed, "C03")
    evs = []
    A = [0, 1, 13, 27, 141, 255, 256, 0x0102, 0x8D1B, 65535] + around(65536)
    B = [0, 1, 13, 27, 141, 255] + around(256)
    kinds = [wire.REQ, wire.ENCREQ, wire.RESP, wire.ENCRESP]
    services = list(wire.SVC.values()) + wire.OTHER_SVC

    def both(t, s, d1, d2, s1, s2, data):
        e = calls.enc(t, s, d1, d2, s1, s2, data)
        ev = [e]
        if rnd.random() < 0.2:
            before = (rnd.choice(services), rnd.choice(A), rnd.choice(B), rnd.choice(A), rnd.choice(B), dv.rand_bytes(rnd, rnd.randrange(40)))
            ev.append(calls.enc_again(t, before, s, d1, d2, s1, s2, data))
        good = wire.frame(t, s, data, (d1, d2), (s1, s2))
        ev += [calls.dec(k, good) for k in kinds]  # each kind reads the frames of the others as its own
        for k in (x for x in kinds if x != t):
            ev.append(calls.dec(k, wire.frame(k, s, data[::-1], (d1, d2), (s1, s2))))
        if e["out"]["k"] == "bytes":
            ev.append(calls.dec(t, bytes(e["out"]["d"])))
        if rnd.random() < 0.3:
            ev.append(calls.recode(t, good))
        ev.append(calls.resp(good))
        evs.append(calls.hist(*ev))

    for i in range(c.n(240, 1000)):  # frames much like the one before
        t, s, data = rnd.choice(kinds), rnd.choice(services), dv.rand_bytes(rnd, rnd.choice([1, 5, 16, 17, 40]))
        where = [rnd.choice(A), rnd.choice(B), rnd.choice(A), rnd.choice(B)]
        ev = []
        for _ in range(4):
            ev += [calls.enc(t, s, *where, data), calls.dec(t, wire.frame(t, s, data, where[:2], where[2:]))]
            if t in (wire.RESP, wire.ENCRESP):
                ev.append(calls.resp(wire.frame(t, s, data, where[:2], where[2:])))
            if rnd.random() < 0.6:
                data = dv.twin(rnd, data)
            else:
                where = rnd.choice([where[2:] + where[:2], [where[2], where[1], where[0], where[3]], [where[0], where[3], where[2], where[1]],
                                    [(where[0] << 8 | where[0] >> 8) & 65535] + where[1:]])
        evs.append(calls.hist(*ev))
    for t in kinds:
        for s in services:
            both(t, s, rnd.choice(A), rnd.choice(B), rnd.choice(A), rnd.choice(B), dv.rand_bytes(rnd, rnd.randrange(30)))
        for a in A:
            both(t, 0x6C, a, 1, 2, 3, b"x")
            both(t, 0x6C, 1, 2, a, 3, b"x")
        for b in B:
            both(t, 0x6C, 1, b, 2, 3, b"x")
            both(t, 0x6C, 1, 2, 3, b, b"x")
        for n in list(range(0, 20)) + [239, 240, 241, 242, 255, 256, 257, 496, 497, 512, 1024] + around(3000):
            both(t, 0x70, rnd.choice(A), rnd.choice(B), rnd.choice(A), rnd.choice(B), dv.rand_bytes(rnd, n))
        for d1, d2, s1, s2 in ((65536, 0, 0, 0), (0, 256, 0, 0), (0, 0, 65536, 0), (0, 0, 0, 256), (-1, 0, 0, 0), (0, 0, 0, -1)):
            evs.append(calls.hist(calls.enc(t, 0x6C, d1, d2, s1, s2, b"abc")))
    for _ in range(c.n(1500, 5000)):
        both(rnd.choice(kinds), rnd.choice(services), rnd.randrange(65536), rnd.randrange(256), rnd.randrange(65536),
             rnd.randrange(256), dv.rand_bytes(rnd, rnd.randrange(60)))
    for n in (5000, 40000, 65520, 65521) if c.thorough else (5000, 65520, 65521):
        evs.append(calls.hist(calls.enc(wire.REQ, 0x70, 1, 2, 3, 4, dv.rand_bytes(rnd, n))))
        if n <= 65520:
            evs.append(calls.hist(calls.resp(wire.frame(wire.RESP, 0x70, dv.rand_bytes(rnd, n)))))
    c.validate("TraceCalls", evs, what="encoding and decoding of frames")
    hs = []
    for i in range(c.n(160, 800)):
        rnd = dv.rng(c.seed, "C03s", i)
        h = History("frames of a session")
        h.new(dv.rand_cfg(rnd, i % 4 == 0))
        for kind in dv.KINDS:
            exchange(h, rnd, kind, size=rnd.choice([None, None, 240, 241, 300]), style=0)
        hs.append(h.json())
    keep = {"wire-service", "wire-destination", "wire-source"} | {x for x in WIRE if x.startswith("wire-frame")}
    c.validate("TraceSession", hs, [x for x in WIRE if x not in keep] + CONTENT, "frames of whole exchanges")


@check
def C04(c):
    c.model("MCPdu", "MCPdu_deep" if c.thorough else None)
    c.model("MCFrame")
    evs = []
    rnd = dv.rng(c.seed, "C04")
    for i in range(c.n(1200, 6000)):
        r = dv.rand_req(rnd)
        evs.append(calls.hist(calls.req(r), calls.req(dv.bad_req(rnd)), calls.req(r)))
        if i % 4 == 0:
            evs.append(calls.hist(calls.req_again(dv.rand_req(rnd, r.k), r), calls.req(r)))
    for i in range(c.n(700, 3000)):  # moments of all kinds
        evs.append(calls.hist(*[calls.req(dv.rand_req(rnd, k)) for k in ("bytime", "write", "bytime")]))
    for i in range(c.n(200, 1000)):  # one instant, as the clocks of different zones show it
        times = session.same_instant(rnd, dv.rand_time(rnd))
        for k in ("bytime", "write"):
            r = dv.rand_req(rnd, k)
            evs.append(calls.hist(*[calls.req(Req(k, r.pw, r.a, r.x, r.y, t)) for t in times]))
    for k in dv.KINDS:
        for a in range(11):
            evs.append(calls.hist(calls.req(Req(k, a=a, x=a * 257, y=513))))
        for n in [0, 1, 255, 256, 257, 65535, 65536, -1] + around(65537):
            evs.append(calls.hist(calls.req(Req(k, x=n, y=7)), calls.req(Req(k, x=7, y=n))))
        for n in [65536, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 0x01020304] + around(1 << 33):
            evs.append(calls.hist(calls.req(Req(k, x=n, y=7))))
        for pw in dv.BAD_PW:
            evs.append(calls.hist(calls.req(Req(k, pw=pw))))
        for ch in range(256):  # every character at every position
            pw = list("abcdef")
            pw[ch % 6] = chr(ch)
            evs.append(calls.hist(calls.req(Req(k, pw="".join(pw))), calls.req(Req(k, pw=chr(ch) * 6))))
    c.validate("TraceCalls", evs, what="payloads of request objects")
    hs = []
    for i in range(c.n(440, 3000)):
        rnd = dv.rng(c.seed, "C04s", i)
        h = History("requests on the wire")
        h.new(dv.rand_cfg(rnd, i % 4 == 0))
        ks = list(dv.KINDS)
        rnd.shuffle(ks)
        for kind in ks:
            if rnd.random() < 0.5:
                h.send(dv.bad_req(rnd))
            exchange(h, rnd, kind, style=0)
            if rnd.random() < 0.12:  # other addresses from now on
                new = dv.rand_cfg(rnd, False)
                h.readdress(new.d1, new.d2, new.s1, new.s2)
        same = dv.rand_req(rnd)  # one request object, sent again and by another connection
        h.new(dv.rand_cfg(rnd, i % 2 == 0))
        for k in (1, 1, 2, 1):
            h.send(same, k)
            h.recv(dv.good(rnd, h.cfgs[k - 1], same.k), k)
            h.drain(k)
            if rnd.random() < 0.3:  # the same object, with other values
                other = dv.rand_req(rnd, same.k)
                same.turn_into(other, h.app)
                same = other
        hs.append(h.json())
    c.validate("TraceSession", hs, CONTENT + [x for x in WIRE if x.startswith("wire-envelope")] + ["wire-padding"],
               "requests sent by connections")
    from . import checks_client

    checks_client.client_requests(c)


@check
def C05(c):
    c.model("MCPdu", "MCPdu_deep" if c.thorough else None)
    rnd = dv.rng(c.seed, "C05")
    evs = []
    for kind in dv.KINDS:
        for i in range(c.n(360, 2500)):
            size = rnd.choice([None, None, None, 200, 1])
            evs.append(calls.hist(calls.pdu(kind, dv.payload(rnd, kind, size)), calls.pdu(kind, dv.bad_payload(rnd, kind))))
            if i % 4 == 0:
                p = dv.payload(rnd, kind)
                evs.append(calls.hist(calls.pdu(kind, p, True), calls.pdu(kind, p)))
        for i in range(c.n(90, 500)):
            ev, p = [], dv.payload(rnd, kind, rnd.choice([9, 20]))
            for _ in range(4):
                ev.append(calls.pdu(kind, p))
                p = dv.twin(rnd, p, dv.FIXED[kind]) if rnd.random() < 0.5 else dv.fixed_twin(rnd, kind, p)
            evs.append(calls.hist(*ev))
    for k in ("byid", "bytime"):
        for a in list(range(14)) + [255]:
            evs.append(calls.hist(calls.pdu(k, bytes([a]) + dv.rand_bytes(rnd, 30))))
        for n in [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304] + around(1 << 32):
            evs.append(calls.hist(calls.pdu(k, b"\x01" + n.to_bytes(4, "little") + b"xyz"), calls.pdu(k, b"\x01" + n.to_bytes(4, "little"))))
    for k in dv.KINDS:
        for n in around(2000):
            evs.append(calls.hist(calls.pdu(k, dv.payload(rnd, k, n)), calls.pdu(k, dv.payload(rnd, k, 2000)[:n])))
    for n in [0, 1, 255, 256, 65535, 0x0102] + around(65536):
        for e in (0, 1, 2, 128, 255):
            evs.append(calls.hist(calls.pdu("params", n.to_bytes(2, "little") + (n ^ 0x0F0F).to_bytes(2, "little") + bytes([e]) + b"abc")))
    for f in range(4):
        t = wire.time_bytes((2024, 2, 29, 23, 59, 58), f >> 1, f & 1)
        for n in (19, 20, 27, 28, 60):
            evs.append(calls.hist(calls.pdu("values", t + dv.rand_bytes(rnd, n))))
        for n in (3, 4, 5, 10):
            evs.append(calls.hist(calls.pdu("time", t + dv.rand_bytes(rnd, n))))
    for n in range(0, 25):
        evs.append(calls.hist(calls.pdu("values", (wire.time_bytes((2024, 2, 29, 23, 59, 58)) + bytes(30))[:n])))
    c.validate("TraceCalls", evs, what="payloads offered to the response classes")
    hs = []
    for i in range(c.n(520, 4000)):
        rnd = dv.rng(c.seed, "C05s", i)
        h = History("decoded responses")
        cfg = dv.rand_cfg(rnd, i % 4 == 0)
        h.new(cfg)
        for kind in rnd.sample(dv.KINDS, 3):
            h.send(dv.rand_req(rnd, kind))
            if rnd.random() < 0.4:
                h.recv(dv.answer(rnd, cfg, wire.SVC[kind], dv.bad_payload(rnd, kind)))
                h.drain()
            p = dv.payload(rnd, kind, rnd.choice([None, None, 300]))
            h.recv(dv.answer(rnd, cfg, wire.SVC[kind], p))
            h.drain()
            if rnd.random() < 0.25:  # and the same again, perhaps after its owner has changed the first
                if rnd.random() < 0.7:
                    h.spoil()
                h.send(dv.rand_req(rnd, kind))
                h.recv(dv.answer(rnd, cfg, wire.SVC[kind], p))
                h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "responses decoded by connections")


@check
def C06(c):
    run_model(c, False, 2500, ignore=WIRE + CONTENT)
    # every response service against every outstanding request, and none
    hs = []
    rnd = dv.rng(c.seed, "C06")
    for enc in (False, True):
        for awaited in [None] + dv.KINDS:
            for svc in list(wire.SVC.values()) + wire.OTHER_SVC:
                cfg = dv.rand_cfg(rnd, enc)
                h = History("response of any service to any request")
                h.new(cfg)
                if awaited:
                    h.send(dv.rand_req(rnd, awaited))
                kind = {v: k for k, v in wire.SVC.items()}.get(svc)
                h.recv(dv.answer(rnd, cfg, svc, dv.payload(rnd, kind) if kind else b"12345"))
                h.next()
                for k in dv.KINDS if awaited else dv.KINDS[:2]:
                    h.send(dv.rand_req(rnd, k))
                probe(h)
                hs.append(h.json())
    c.validate("TraceSession", hs, WIRE + CONTENT, "every response service against every outstanding request")
    c.validate("TraceSession", wander_histories(c, "C06", c.n(250, 4000), 25, enc=None, bad=0.4), WIRE + CONTENT,
               "random histories")
    long_lives(c, "C06", ["exchange", "refused", "foreign", "error"], WIRE + CONTENT)


@check
def C07(c):
    run_model(c, False, 1200, lambda t: any(e["x"] in ("head", "tail", "endchar") for e in t), WIRE)
    hs = []
    for i, kind in enumerate(dv.KINDS):
        for enc in (False, True):
            rnd = dv.rng(c.seed, "C07", kind, enc)
            cfg = dv.rand_cfg(rnd, enc)
            data = dv.good(rnd, cfg, kind, 12)
            pre = rnd.choice([b"", dv.noise(rnd), b"\x0d", dv.damage(rnd, dv.good(rnd, cfg, kind))])
            step = 1 if c.thorough or not enc else 3
            for whole in (data, pre + data):
                for k in range(1, len(whole), step):
                    for poll in (0, 1):
                        h = History(f"split at {k}")
                        h.new(cfg)
                        h.send(dv.rand_req(rnd, kind))
                        h.recv(whole[:k])
                        if poll:
                            h.drain()
                        h.recv(whole[k:])
                        h.drain()
                        hs.append(h.json())
    n = c.n(900, 10 ** 6)
    hs = hs if len(hs) <= n else dv.rng(c.seed, "C07").sample(hs, n)
    c.validate("TraceSession", hs, WIRE, "every split point of every kind of response")
    hs = []
    fills = [0x00, 0xFF, 0x20, 0x0A, 0x02, 0x1B, 0x7E, 0x8D, 0x0E, 0x0F] + c.n([], list(range(256)))
    for fill in fills:
        for n in (1, 2, 9):
            for shape in range(5):
                rnd = dv.rng(c.seed, "C07f", fill, n, shape)
                cfg = dv.rand_cfg(rnd, rnd.random() < 0.3)
                kind = dv.KINDS[(fill + n + shape) % 6]
                data = dv.good(rnd, cfg, kind)
                h = History("an idle line around the response")
                h.new(cfg)
                h.send(dv.rand_req(rnd, kind))
                run = bytes([fill]) * n
                parts = {
                    0: [run, data],  # the run spoils the response
                    1: [run, b"\x0d" + data],
                    2: [run + data[:1], data[1:]],
                    3: [data[:-1], b"\x0d" + run] if fill != 13 else [data],
                    4: [run] * 3 + [b"\x0d", run + b"\x0d" + data],
                }[shape]
                for part in parts:
                    h.recv(part)
                    if rnd.random() < 0.5:
                        h.next()
                h.drain()
                h.recv(dv.good(rnd, cfg, kind))
                h.drain()
                probe(h)
                hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "runs of one byte around responses")
    hs = []
    for i in range(c.n(250, 5000)):
        rnd = dv.rng(c.seed, "C07r", i)
        h = History("random splittings and polls")
        cfg = dv.rand_cfg(rnd)
        h.new(cfg)
        for kind in rnd.sample(dv.KINDS, 2):
            before = []
            while rnd.random() < 0.5:
                before.append(rnd.choice([b"\x0d", dv.noise(rnd), dv.skipped(rnd, cfg)]))
            exchange(h, rnd, kind, before=before, style=rnd.choice([1, 2, 3, 4, 4]))
            while rnd.random() < 0.3:
                h.recv(b"\x0d")
                h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "random splittings, poll positions and noise")
    hs = []
    for i in range(c.n(90, 1500)):  # parts that are all alike
        rnd = dv.rng(c.seed, "C07u", i)
        h = History("equal parts in a row")
        cfg = dv.rand_cfg(rnd, False)
        h.new(cfg)
        kind = dv.KINDS[i % 6]
        w = rnd.choice([1, 2, 4, 8, 9, 10, 12, 16])
        unit = bytes(rnd.randrange(28, 128) for _ in range(w))
        first = dv.payload(rnd, kind, 12)
        tele = dv.answer(rnd, cfg, wire.SVC[kind], first + unit * rnd.choice([2, 3, 5, 9]))
        k = tele.index(unit)
        parts = [tele[:k]] + [tele[j : j + w] for j in range(k, len(tele), w)]
        if rnd.random() < 0.3:
            parts = [tele[: k + w]] + parts[2:]
        if rnd.random() < 0.3:  # the same noise again and again, and the same telegram
            again = rnd.choice([unit + b"\x0d", dv.noise(rnd), tele])
            parts = [again] * rnd.choice([2, 3]) + parts if again != tele else parts + parts
        h.send(dv.rand_req(rnd, kind))
        for part in parts:
            h.recv(part)
            if i % 2:
                h.next()
        probe(h)
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "equal parts in a row")
    staggered(c, c.n(300, 6000), WIRE)
    large(c, WIRE)
    long_lives(c, "C07", ["poll", "endchar", "bytes"], WIRE)


def staggered(c, count, ignore):
    """Telegrams of all kinds one after the other, looked at before they are complete; the next is often shorter."""
    hs = []
    for i in range(count):
        rnd = dv.rng(c.seed, "staggered", i)
        cfg = dv.rand_cfg(rnd)
        h = History("telegrams one by one, each looked at early")
        h.new(cfg)
        awaited = None
        for _ in range(rnd.randrange(2, 6)):
            x = rnd.random()
            if awaited is None or x < 0.2:
                r = dv.rand_req(rnd, "write" if rnd.random() < 0.4 else None)
                if h.send(r)["k"] == "bytes":
                    awaited = r.k
            y = rnd.random()
            if y < 0.3:
                t, after = dv.error(rnd, cfg), None
            elif y < 0.4:
                t, after = dv.foreign(rnd, cfg, awaited), awaited
            elif y < 0.5:
                t, after = dv.answer(rnd, cfg, wire.SVC[awaited], dv.bad_payload(rnd, awaited)), awaited
            elif y < 0.65:
                t, after = dv.skipped(rnd, cfg), awaited
            else:
                t, after = dv.good(rnd, cfg, awaited), None
            k = rnd.choice([len(t) - 1, rnd.randrange(1, len(t)), max(1, len(t) - rnd.randrange(1, 7))]) if len(t) > 1 else 1
            if rnd.random() < 0.4:
                k = len(t)
            for part in (t[:k], t[k:]):
                if part:
                    h.recv(part)
                    for _ in range(rnd.choice([0, 1, 1, 1, 1, 2])):
                        h.next()
            h.next()
            awaited = after
        probe(h)
        hs.append(h.json())
    c.validate("TraceSession", hs, ignore, "telegrams one by one, each looked at before it is complete")


def large(c, ignore, sizes=(5000, 9500, 17000, 65400)):
    """Responses of thousands of bytes, in parts."""
    hs = []
    for j, n in enumerate(list(sizes) + c.n([], [33000, 65000]) + [n for n in around(60000) if n > 1000][: c.n(4, 20)]):
        rnd = dv.rng(c.seed, "large", n)
        kind = rnd.choice(["params", "byid", "bytime", "values"])
        cfg = dv.rand_cfg(rnd, n < 6000 and rnd.random() < 0.5)
        h = History(f"a response of {n} bytes")
        h.new(cfg)
        h.send(dv.rand_req(rnd, kind))
        most = kind != "values" and n > 60000  # a telegram as large as there can be
        some = [13, 27, 141] if most else range(16, 128)
        data = dv.answer(rnd, cfg, wire.SVC[kind], dv.payload(rnd, kind, 10) + bytes(rnd.choice(some) for _ in range(n)))
        k = rnd.randrange(10, len(data) - 10)
        for part in [data[: k // 2], data[k // 2 : k], data[k:-5], data[-5:]] if j % 2 else [data[:-1], data[-1:]]:
            h.recv(part)
            h.next()
        probe(h)
        hs.append(h.json())
    c.validate("TraceSession", hs, ignore, "large responses in parts")


@check
def C08(c):
    run_model(c, False, 800, lambda t: any(e["x"] in ("noise", "corrupt", "request", "crypt", "foreign", "badtime", "head") for e in t), WIRE)
    if c.thorough:
        run_model(c, True, 10 ** 9, ignore=WIRE)
    hs = []
    for enc in (False, True):
        rnd = dv.rng(c.seed, "C08", enc)
        cfg = dv.rand_cfg(rnd, enc)
        bad = [wire.escape(b) for b in dv.tiny_frames() + dv.crossed_tail() + dv.crossed_tail(0x6C, wire.ENCRESP)]
        bad += [dv.skipped(rnd, cfg) for _ in range(c.n(250, 3000))]
        bad += [bytes([b]) + b"\x0d" for b in range(256)] if c.thorough or not enc else []
        bad += [dv.bad_envelope(rnd, cfg, rnd.choice(dv.KINDS)) for _ in range(60)] if enc else []
        bad += [dv.rand_bytes(rnd, n).replace(b"\x0d", b"\x0c") + b"\x0d" for n in (100, 1000, 5000)]
        for b in bad:
            kind = rnd.choice(dv.KINDS)
            h = History("a bad telegram before and after the request")
            h.new(cfg)
            k = rnd.randrange(3)
            if k == 0:
                h.recv(b)
                if rnd.random() < 0.5:
                    h.drain()
            h.send(dv.rand_req(rnd, kind))
            if k == 1:
                h.recv(b + dv.good(rnd, cfg, kind))
                h.drain()
            if k == 2:
                for part in dv.cuts(rnd, b):
                    h.recv(part)
                    h.next()
            h.recv(dv.good(rnd, cfg, kind))
            h.drain()
            probe(h)
            hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "bad telegrams around a valid exchange")
    c.validate("TraceSession", wander_histories(c, "C08", c.n(200, 4000), 30, bad=0.9), WIRE, "random noisy histories")
    from .checks_secrets import Capture

    with Capture():  # everything is logged and rendered; it must make no difference
        hs = wander_histories(c, "C08log", c.n(40, 800), 25, bad=0.7)
    c.validate("TraceSession", hs, WIRE, "random noisy histories with all logging on")
    long_lives(c, "C08", ["skip", "together", "foreign"], WIRE)
    hs = []
    for j, n in enumerate(c.n([1500, 4000], [1500, 4000, 12000]) + [x for x in around(12000) if x > 20][: c.n(3, 10)]):  # very many, in one delivery
        rnd = dv.rng(c.seed, "C08many", n)
        cfg = dv.rand_cfg(rnd, bool(j))
        h = History(f"{n} bad telegrams at once")
        h.new(cfg)
        kind = rnd.choice(dv.KINDS)
        h.send(dv.rand_req(rnd, kind))
        some = [b"\x0d", b"A\x0d", b"\x02\xfe\x86\x0d", b"\x1b\x0d"] + [dv.noise(rnd)[:9] + b"\x0d" for _ in range(9)]
        h.recv(b"".join(rnd.choice(some) for _ in range(n)) + dv.good(rnd, cfg, kind))
        h.next()
        probe(h)
        hs.append(h.json())
    for n in [20000, 140000] + c.n([], [70000]) + [x for x in around(150000) if x > 4000][: c.n(3, 10)]:  # a long time without any end
        rnd = dv.rng(c.seed, "C08long", n)
        cfg = dv.rand_cfg(rnd, False)
        h = History(f"{n} bytes of noise")
        h.new(cfg)
        kind = rnd.choice(dv.KINDS)
        h.send(dv.rand_req(rnd, kind))
        for _ in range(4):
            h.recv(bytes(rnd.randrange(14, 256) for _ in range(n // 4)))
            h.next()
        h.recv(b"\x0d")
        h.next()
        h.recv(dv.good(rnd, cfg, kind))
        h.next()
        probe(h)
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "very much noise")
    staggered(c, c.n(150, 3000), WIRE)
    large(c, WIRE, (12000, 65400))


@check
def C09(c):
    c.model("MCSession", "MCSession_plain")
    hs = []
    for enc in (False, True):
        rnd = dv.rng(c.seed, "C09", enc)
        for e in range(1, 256):
            cfg = dv.rand_cfg(rnd, enc)
            h = History(f"error byte {e}")
            h.new(cfg)
            kind = rnd.choice(dv.KINDS)
            k = rnd.randrange(4)
            if k:
                h.send(dv.rand_req(rnd, kind))
            before = dv.skipped(rnd, cfg) if rnd.random() < 0.2 else b""
            svc = wire.SVC[kind] if k < 3 else rnd.choice(list(wire.SVC.values()) + wire.OTHER_SVC)
            t = dv.answer(rnd, cfg, svc, bytes([e]), cfg.cipher if rnd.random() < 0.8 else None)
            for part in dv.cuts(rnd, before + t):
                h.recv(part)
            h.drain()
            h.next()
            exchange(h, rnd)
            if rnd.random() < 0.2:
                h.recv(t)
                h.next()
                exchange(h, rnd)
            hs.append(h.json())
        for svc in list(wire.SVC.values()) + wire.OTHER_SVC:
            for kind in dv.KINDS:
                cfg = dv.rand_cfg(rnd, enc)
                h = History("error of any service")
                h.new(cfg)
                h.send(dv.rand_req(rnd, kind))
                h.recv(dv.error(rnd, cfg, None, svc) + (dv.good(rnd, cfg, kind) if rnd.random() < 0.3 else b""))
                h.drain()
                exchange(h, rnd)
                hs.append(h.json())
        # not errors: a single zero byte, two bytes
        for kind in dv.KINDS:
            for data in (b"\0", b"\x01\x02", b"\0\1", b""):
                cfg = dv.rand_cfg(rnd, enc)
                h = History("not an error")
                h.new(cfg)
                h.send(dv.rand_req(rnd, kind))
                h.recv(dv.answer(rnd, cfg, wire.SVC[kind], data))
                h.drain()
                probe(h)
                hs.append(h.json())
    if c.thorough:
        hs += wander_histories(c, "C09", 3000, 25, bad=0.6)
    c.validate("TraceSession", hs, WIRE + CONTENT, "device errors")
    staggered(c, c.n(150, 3000), WIRE + CONTENT)
    long_lives(c, "C09", ["error"], WIRE + CONTENT)


@check
def C10(c):
    c.model("MCCipher", "MCCipher_deep" if c.thorough else None)
    rnd = dv.rng(c.seed, "C10")
    evs = []
    for n in list(range(0, 70)) + [100, 255, 256, 1000] + around(2000):
        evs.append(calls.hist(calls.seal(dv.rand_key(rnd), rnd.randrange(1, 8), dv.rand_bytes(rnd, n))))
    for kid in range(1, 8):
        for _ in range(c.n(15, 100)):
            evs.append(calls.hist(calls.seal(dv.rand_key(rnd), kid, dv.rand_bytes(rnd, rnd.randrange(40)))))
    for _ in range(c.n(180, 1000)):  # much like the one before
        key, kid, data, ev = dv.rand_key(rnd), rnd.randrange(1, 8), dv.rand_bytes(rnd, rnd.choice([3, 14, 16, 20, 33, 50])), []
        for _ in range(4):
            ev.append(calls.seal(key, kid, data))
            k = rnd.randrange(6)
            if k == 0:
                key = dv.twin(rnd, key)
            elif k == 1:
                kid = kid % 7 + 1
            else:
                data = dv.twin(rnd, data)
        evs.append(calls.hist(*ev))
    c.validate("TraceCalls", evs, what="envelopes")
    hs = []
    for i in range(c.n(340, 3000)):
        rnd = dv.rng(c.seed, "C10s", i)
        h = History("encrypted requests")
        h.new(dv.rand_cfg(rnd, True))
        for kind in dv.KINDS:
            if rnd.random() < 0.15:
                h.send(dv.bad_req(rnd))
            exchange(h, rnd, kind, style=0)
        hs.append(h.json())
    # settings that must be refused or must fail, never be sent in clear
    for key in (dv.rand_key(rnd), bytes(16), b"\xff" * 16):
        h = History("key without key id")
        h.new(Cfg(1, 2, 3, 4, key, None))
        hs.append(h.json())
        for kid in range(1, 8):
            h = History("key and key id")
            h.new(Cfg(1, 2, 3, 4, key, kid))
            exchange(h, rnd)
            hs.append(h.json())
    for n in (1, 8, 15, 17, 24, 32):
        if n in (24, 32):
            continue  # AES-192/256 keys: not ELGAS, nothing promised
        h = History("key of a wrong length")
        h.new(Cfg(1, 2, 3, 4, bytes(range(1, n + 1)), 3))
        for kind in dv.KINDS:
            h.send(dv.rand_req(rnd, kind))
        hs.append(h.json())
    c.validate("TraceSession", hs, CONTENT, "requests of encrypting connections")
    long_lives(c, "C10", ["exchange"], CONTENT, True)
    encrypting_clients(c)


def special_keys(rnd):
    return [bytes(16), b"\xff" * 16, b" " * 16, b"0" * 16, bytes(8) + dv.rand_key(rnd)[8:], dv.rand_key(rnd)[:8] + bytes(8),
            b"\0" + dv.rand_key(rnd)[1:], dv.rand_key(rnd)[:15] + b"\0", b"\r\n" + dv.rand_key(rnd)[2:], bytes(range(16)),
            b"0123456789abcdef", bytes(15) + b"\1", b"\1" + bytes(15)] + [dv.rand_key(rnd) for _ in range(8)]


def encrypting_clients(c):
    """Clients hand their key to the connection they make."""
    from . import clients

    hs = []
    rnd = dv.rng(c.seed, "C10k")
    for i, key in enumerate(special_keys(rnd) * c.n(2, 20)):
        rnd = dv.rng(c.seed, "C10k", i)
        h = clients.ClientHistory(rnd, "client with a key")
        cfg = Cfg(0, 0, 0, 0, key, 1 + i % 7)
        h.new(cfg, pw=dv.rand_pw(rnd), link=("script", "tcp", "serial")[i % 3])
        h.connect()
        for kind in rnd.sample(dv.KINDS, 6):
            if kind == "params":
                page = dv.answer(rnd, cfg, wire.SVC[kind], b"\0\0\1\0\1" + bytes.fromhex("050015") + b"\0\0")
                h.call(dv.rand_req(rnd, kind), [page])
            else:
                h.call(dv.rand_req(rnd, kind), [dv.good(rnd, cfg, kind)])
            if rnd.random() < 0.2:
                h.disconnect()
                h.connect()
        hs.append(h.json())
    c.validate("TraceClient", hs, CONTENT + ["readout-object-count", "readout-objects", "readout-failed", "returned-value"],
               "calls of clients that were given a key")


@check
def C11(c):
    c.model("MCCipher", "MCCipher_deep" if c.thorough else None)
    rnd = dv.rng(c.seed, "C11")
    evs = []
    for n in list(range(0, c.n(34, 66))) + [n for n in around(1500) if n > 33]:
        key, kid = dv.rand_key(rnd), rnd.randrange(1, 8)
        data = dv.rand_bytes(rnd, n)
        e = wire.seal(key, kid, data, rnd=rnd)
        ev = [calls.open_(key, kid, e)]
        for k in range(len(e)) if c.thorough else rnd.sample(range(len(e)), min(6, len(e))) + [0, 1, 2]:
            ev.append(calls.open_(key, kid, e[:k] + bytes([e[k] ^ (1 << rnd.randrange(8))]) + e[k + 1 :]))
        for k in range(len(e)) if c.thorough or n == 20 else (0, 1, 2, 3, 16, 18, len(e) - 16, len(e) - 1):
            ev.append(calls.open_(key, kid, e[:k]))
        ev.append(calls.open_(key, kid % 7 + 1, e))
        ev.append(calls.open_(bytes(16), kid, e))
        ev.append(calls.open_(key, kid, e + bytes(16)))
        for x in (bytes([rnd.choice([0, 10, 13, rnd.randrange(256)])]), dv.rand_bytes(rnd, rnd.randrange(2, 16)), dv.rand_bytes(rnd, 16), e[3:19]):
            ev += [calls.open_(key, kid, e + x), calls.open_(key, kid, e[:3] + x + e[3:])]
        for ln in (0, n - 1, n + 1, len(e) - 5, len(e) - 4, 65535):
            if ln >= 0:
                ev.append(calls.open_(key, kid, wire.seal(key, kid, data, rnd=rnd, length=ln)))
        # padding of another length than ours
        k = (16 - (n + 2) % 16) % 16 + 16
        ev.append(calls.open_(key, kid, wire.seal(key, kid, data, pad=dv.rand_bytes(rnd, k))))
        good = wire.crc16(n.to_bytes(2, "little") + bytes([kid]) + data + bytes((16 - (n + 2) % 16) % 16))
        for crc in (0, good ^ 1, good ^ 0x8000, ((good << 8) | (good >> 8)) & 0xFFFF):
            ev.append(calls.open_(key, kid, wire.seal(key, kid, data, crc=crc)))
        evs += [calls.hist(x) for x in ev]
    for _ in range(c.n(240, 1500)):  # much like the one before, good and bad
        key, kid, data, ev = dv.rand_key(rnd), rnd.randrange(1, 8), dv.rand_bytes(rnd, rnd.choice([3, 14, 20, 33, 50])), []
        pad = (16 - (len(data) + 2) % 16) % 16
        for _ in range(5):
            e = wire.seal(key, kid, data, rnd=rnd) if rnd.random() < 0.5 else wire.seal(key, kid, data, bytes(pad))
            ev.append(calls.open_(key, kid, e))
            if rnd.random() < 0.5:
                ev.append(calls.open_(key, kid, dv.twin(rnd, e, rnd.choice([0, 3, 3, len(e) - 16]))))
            k = rnd.randrange(6)
            if k == 0:
                key = dv.twin(rnd, key)
            elif k == 1:
                kid = kid % 7 + 1
            elif k == 2:  # all but the first or last block is another one
                data = data[:16] + dv.rand_bytes(rnd, len(data[16:]))
            else:
                data = dv.twin(rnd, data)
        evs.append(calls.hist(*ev))
    c.validate("TraceCalls", evs, what="damaged envelopes offered to the cipher")
    hs = []
    for i in range(c.n(440, 3500)):
        rnd = dv.rng(c.seed, "C11s", i)
        h = History("damaged encrypted responses")
        enc = i % 5 != 0
        cfg = dv.rand_cfg(rnd, enc)
        h.new(cfg)
        kind = rnd.choice(dv.KINDS)
        h.send(dv.rand_req(rnd, kind))
        for _ in range(3):
            if enc:
                h.recv(dv.bad_envelope(rnd, cfg, kind))
            else:
                h.recv(dv.answer(rnd, cfg, wire.SVC[kind], dv.payload(rnd, kind), (dv.rand_key(rnd), 3)))
            h.drain()
        p = dv.payload(rnd, kind, i % 60)
        h.recv(dv.answer(rnd, cfg, wire.SVC[kind], p))
        h.drain()
        for _ in range(3):  # much like it, and another time damaged
            h.send(dv.rand_req(rnd, kind))
            if enc and rnd.random() < 0.4:
                e = wire.seal(*cfg.cipher, p, rnd=rnd)
                h.recv(dv.answer_raw(rnd, wire.SVC[kind], dv.twin(rnd, e, rnd.choice([0, 3, len(e) - 16]))))
                h.drain()
            p = p[: dv.FIXED[kind] + 13] + dv.twin(rnd, p[dv.FIXED[kind] + 13 :]) if rnd.random() < 0.5 else dv.twin(rnd, p, dv.FIXED[kind])
            if len(p) == 1 and p[0]:
                p = b"\0"
            h.recv(dv.answer(rnd, cfg, wire.SVC[kind], p))
            h.drain()
        h.send(dv.rand_req(rnd, kind))
        # plain responses are fine in an encrypted session
        h.recv(dv.answer(rnd, cfg, wire.SVC[kind], dv.payload(rnd, kind), None))
        h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE, "encrypted responses received by connections")
    long_lives(c, "C11", ["envelope"], WIRE, True)


@check
def C12(c):
    session.WATCH = True
    run_model(c, False, 1500, lambda t: any(e["x"] in ("badpw", "badnum") for e in t) or t[-1]["op"] == "next", WIRE + CONTENT)
    hs = []
    for enc in (False, True):
        for kind in [k for k in dv.KINDS if k != "time"]:
            for j in range(c.n(120, 600)):
                rnd = dv.rng(c.seed, "C12", enc, kind, j)
                cfg = dv.rand_cfg(rnd, enc)
                h = History("unencodable requests")
                h.new(cfg)
                if rnd.random() < 0.3:
                    exchange(h, rnd)
                if rnd.random() < 0.3:
                    h.recv(dv.skipped(rnd, cfg)[:-1])
                for _ in range(rnd.randrange(1, 4)):
                    h.send(dv.bad_req(rnd, kind))
                if rnd.random() < 0.3:  # nothing is awaited now
                    h.recv(b"\x0d" + dv.good(rnd, cfg, kind))
                    h.drain()
                r = dv.rand_req(rnd, kind if rnd.random() < 0.5 else None)
                h.send(r)
                h.send(dv.bad_req(rnd))  # refused: one is outstanding
                h.recv(b"\x0d" + dv.good(rnd, cfg, r.k))
                h.drain()
                hs.append(h.json())
    for n in (1, 8, 15, 17):
        rnd = dv.rng(c.seed, "C12k", n)
        h = History("key of a wrong length")
        h.new(Cfg(1, 2, 3, 4, bytes(range(1, n + 1)), 3))
        for kind in dv.KINDS:
            h.send(dv.rand_req(rnd, kind))
        h.recv(dv.good(rnd, plain_cfg(), "time"))
        h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, WIRE + CONTENT, "requests that cannot be encoded")
    long_lives(c, "C12", ["badsend"], WIRE + CONTENT)


# ---------------------------------------------------------------------------
# parameters, configuration, time, call
# ---------------------------------------------------------------------------
@check
def C17(c):
    written = c.tests("MCStream", "MCStream_deep" if c.thorough else None)
    c.validate(
        "TraceCalls", [calls.hist(calls.params(bytes(t["d"])), note=f"model: {t['damage']}") for t in written[c.seed % 3 :: c.n(3, 1)]],
        what="streams of MCStream")
    L = records.layouts()
    types = sorted(L)
    rnd = dv.rng(c.seed, "C17")
    evs = []
    add = lambda d: evs.append(calls.hist(calls.params(d)))
    body = lambda t, **kw: records.body(rnd, L[t]["layout"], **kw)
    rec = lambda t, **kw: records.record(t, body(t, **kw))
    for t in types:
        add(rec(t))
        for tail in (False, True):
            r = rec(t, tail=tail)
            add(r + rec(rnd.choice(types)))
            cutpoints = range(len(r)) if c.thorough else rnd.sample(range(1, len(r)), min(8, len(r) - 1)) + [0, 1, 2, 3]
            for k in cutpoints:
                add(r[:k])
                if rnd.random() < 0.3:
                    add(rec(rnd.choice(types)) + r[:k])
            for ln in [0, 1, 2, len(r) - 1, len(r) + 1, len(r) + 300, 65535] + [len(r) ^ (1 << k) for k in range(16)]:
                if ln != len(r):
                    add(ln.to_bytes(2, "little") + r[2:])
                    add(rec(rnd.choice(types)) + ln.to_bytes(2, "little") + r[2:])
    for fill in (0x00, 0xFF, 0x0D, 0x1A, 0x20, 0x03, 0x04):  # what is left of a page, filled up
        for n in [1, 2, 3, 4, 5, 7, 8, 9, 16, 64, 255, 1000]:
            add(bytes([fill]) * n)
            add(rec(rnd.choice(types)) + bytes([fill]) * n)
            if n < 9:
                add(rec(rnd.choice(types)) + bytes([fill]) * n + rec(rnd.choice(types)))
                add(bytes([fill]) * n + rec(rnd.choice(types)))
    for _ in range(c.n(480, 2500)):
        add(b"".join(rec(rnd.choice(types)) for _ in range(rnd.randrange(2, 7))))
    for u in [x for x in range(256) if x not in types][:: c.n(2, 1)]:
        add(records.record(u, body(30)))
        add(rec(31) + records.record(u, bytes(40)) + rec(32))
    add(b"")
    add(b"".join(rec(t) for t in types))
    add(b"".join(rec(t, mode="ones") for t in reversed(types)))
    add(rec(48, rows=200) + rec(48, rows=0, tail=True) + rec(31))
    add(rec(48, rows=255, tail=True) + rec(65))
    add(rec(30) * c.n(40, 400))
    for i in range(c.n(180, 1000)):
        streams = [b"".join(rec(rnd.choice(types)) for _ in range(rnd.randrange(1, 4))) for _ in range(rnd.randrange(2, 5))]
        if i % 4 == 0:  # one that must be refused in between
            k = rnd.randrange(len(streams))
            streams[k] = streams[k][: rnd.randrange(len(streams[k]))]
        evs.append(calls.hist(*calls.params_again(streams)))
        if i % 3 == 0:
            evs.append(calls.hist(*calls.params_again(streams + streams, True)))
        evs.append(calls.hist(calls.params(streams[0], "data")))
    for n in range(0, 256, c.n(5, 1)):
        add(rec(48, rows=n) + rec(rnd.choice(types)))
    small = sorted(types, key=lambda t: len(rec(t, mode="zero", tail=False)))[:4]
    add(b"".join(rec(rnd.choice(small)) for _ in range(c.n(1300, 6000))))
    for i in range(c.n(240, 1500)):  # objects much like those before, in one stream and in the next
        ts, b = [rnd.choice(types)] * 2 if i % 2 else rnd.sample(types, 2), {}
        b = {t: body(t, rows=2) for t in ts}
        ev = []
        for _ in range(3):
            out = b""
            for t in ts:
                out += records.record(t, b[t])
                b[t] = records.twin(rnd, L[t]["layout"], b[t], 2)
            ev.append(calls.params(out))
        evs.append(calls.hist(*ev))
    c.validate("TraceCalls", evs, what="parameter streams")


@check
def C18(c):
    c.model("MCLayouts", "MCLayouts_deep" if c.thorough else None)
    L = records.layouts()
    rnd = dv.rng(c.seed, "C18")
    evs = []
    add = lambda d: evs.append(calls.hist(calls.params(d)))
    for t in sorted(L):
        lay = L[t]["layout"]
        for i in range(c.n(120, 400)):
            add(records.record(t, records.body(rnd, lay, tail=bool(i % 2))))
            if i % 5 == 0:  # twice, and the objects of the first are changed by their owner
                d = records.record(t, records.body(rnd, lay, tail=bool(i % 2)))
                evs.append(calls.hist(calls.params(d, spoilt=True), calls.params(d)))
        for i in range(c.n(10, 80)):
            ev, b = [], records.body(rnd, lay, tail=bool(i % 2), rows=3)
            for _ in range(4):
                ev.append(calls.params(records.record(t, b)))
                b = records.twin(rnd, lay, b, 3)
            evs.append(calls.hist(*ev))
        for mode in ("zero", "ones"):
            for tail in (False, True):
                add(records.record(t, records.body(rnd, lay, mode=mode, tail=tail)))
        # a single byte set in an otherwise empty record: at every position
        off = records.offsets(lay)
        size = sum(w for _, w, _ in off)
        base = records.body(rnd, lay, mode="zero", tail=True, rows=0)
        exact = [b for o, w, f in off if f["k"] in ("f4", "f8") for b in range(o, o + w)]
        for o in range(size):
            b = bytearray(base)
            if o not in exact:
                b[o] = rnd.choice([1, 0x41, 0x80, 0xFF])
                if any(f["n"] == "rows_in_window" and p == o for p, w, f in off):
                    b[o] = 1
                    b[o + 1 : o + 1] = dv.rand_bytes(rnd, 10)
                add(records.record(t, bytes(b)))
        # every byte of numbers, codes and addresses takes every value
        free = [b for o, w, f in off if f["k"] not in ("f4", "f8", "t", "rows") and f["n"] != "rows_in_window" for b in range(o, o + w)]
        for v in range(0, 256, 1 if c.thorough or len(free) <= 80 else 3):
            b = bytearray(records.body(rnd, lay, tail=True, rows=0))
            for o in free:
                b[o] = (v * 5 + o * 37) & 255
            add(records.record(t, bytes(b)))
        # every flag bit on its own
        for o, w, f in off:
            if f["k"] in ("c", "cx"):
                for bit in range(8):
                    b = bytearray(records.body(rnd, lay, tail=True))
                    b[o] = 1 << bit
                    add(records.record(t, bytes(b)))
                    b[o] ^= 0xFF
                    add(records.record(t, bytes(b)))
        if any(f["k"] == "rows" for f in lay):
            for n in range(0, 256, c.n(5, 1)):
                add(records.record(t, records.body(rnd, lay, rows=n)))
            for n in (127, 128, 129):
                add(records.record(t, records.body(rnd, lay, rows=n, tail=True)))
        # too short, at every length
        full = records.body(rnd, lay, tail=True, rows=1)
        short = records.body(rnd, lay, tail=False, rows=1)
        ks = range(len(full)) if c.thorough else sorted(set(rnd.sample(range(len(full)), min(10, len(full))) + [0, len(full) - 1, len(short) - 1]))
        for k in ks:
            add(records.record(t, full[:k]))
    c.validate("TraceCalls", evs, what="parameter records")


@check
def C19(c):
    L = records.layouts()
    rnd = dv.rng(c.seed, "C19")
    evs = []
    for t in sorted(L):
        lay = L[t]["layout"]
        for mode in ("zero", "ones"):
            for tail in (False, True):
                evs.append(calls.hist(calls.export(t, records.body(rnd, lay, mode=mode, tail=tail))))
        for i in range(c.n(48, 400)):
            evs.append(calls.hist(calls.export(t, records.body(rnd, lay, tail=bool(i % 2)))))
        off = records.offsets(lay)
        for o, w, f in off:
            if f["k"] in ("c", "cx"):
                for bit in range(8):
                    b = bytearray(records.body(rnd, lay))
                    b[o] = 1 << bit
                    evs.append(calls.hist(calls.export(t, bytes(b))))
    c.validate("TraceCalls", evs, what="dump, JSON, load")


@check
def C20(c):
    c.model("MCCalendar")
    rnd = dv.rng(c.seed, "C20")
    evs = []
    base = bytearray(wire.time_bytes((2024, 1, 31, 12, 34, 56)))
    for i in range(6):
        for v in range(256):
            b = bytearray(base)
            b[i] = v
            evs.append(calls.hist(calls.todt(bytes(b))))
    for y in range(100):  # the last days of every month of every year, and the days after
        for m in range(1, 13):
            for d in (28, 29, 30, 31) if c.thorough or m == 2 else (rnd.choice((30, 31)),):
                f = rnd.randrange(4)
                evs.append(calls.hist(calls.todt(wire.time_bytes((2000 + y, m, d, 23, 59, 59), f >> 1, f & 1))))
    days = range(36525) if c.thorough else rnd.sample(range(36525), 1500)
    import datetime

    for n in days:
        t = datetime.datetime(2000, 1, 1) + datetime.timedelta(days=n, seconds=rnd.randrange(86400))
        tt = (t.year, t.month, t.day, t.hour, t.minute, t.second)
        f = rnd.randrange(4)
        evs.append(calls.hist(calls.fromdt(tt), calls.todt(wire.time_bytes(tt, f >> 1, f & 1))))
    for h in range(24):
        for f in range(4):
            evs.append(calls.hist(calls.todt(wire.time_bytes((2010, 10, 10, h, 0, 0), f >> 1, f & 1))))
    for x in range(60):
        evs.append(calls.hist(calls.fromdt((2010, 10, 10, 10, x, 59 - x)), calls.todt(wire.time_bytes((2010, 10, 10, 10, x, 59 - x)))))
    for y in list(range(1, 2000, 97)) + list(range(1890, 2000)) + list(range(2100, 2210)) + [3000, 9999]:
        evs.append(calls.hist(calls.fromdt((y, 3, 4, 5, 6, 7))))
    for _ in range(c.n(450, 2000)):  # one instant, in several zones
        evs.append(calls.hist(*[calls.fromdt(t) for t in session.same_instant(rnd, dv.rand_time(rnd))]))
    for _ in range(c.n(4000, 20000)):
        evs.append(calls.hist(calls.todt(dv.rand_bytes(rnd, 6)), calls.todt(dv.bad_time_bytes(rnd))))
    for n in (0, 1, 5, 7, 12):
        evs.append(calls.hist(calls.todt((bytes(base) * 2)[:n])))
    c.validate("TraceCalls", evs, what="device time encoding and decoding")
    hs = []
    for i in range(c.n(180, 600)):
        rnd = dv.rng(c.seed, "C20s", i)
        h = History("times through a connection")
        cfg = dv.rand_cfg(rnd, False)
        h.new(cfg)
        for _ in range(4):
            h.send(Req("write", tm=dv.rand_time(rnd)))
            h.recv(dv.good(rnd, cfg, "write"))
            h.drain()
            h.send(Req("time"))
            h.recv(dv.good(rnd, cfg, "time"))
            h.drain()
        hs.append(h.json())
    c.validate("TraceSession", hs, [x for x in WIRE if x != "wire-payload"], "writing and reading the device time")


@check
def C22(c):
    c.model("MCLayouts", "MCLayouts_deep" if c.thorough else None)
    rnd = dv.rng(c.seed, "C22")
    evs = []
    add = lambda d: evs.append(calls.hist(calls.call_message(d)))
    base = records.call_message(rnd)
    L = records.call_layout()
    off, pos = [], 0
    for f in L:
        off.append((pos, f["w"], f))
        pos += f["w"]
    for mode in ("zero", "ones"):
        add(records.call_message(rnd, mode))
    for i in range(c.n(1500, 8000)):
        add(records.call_message(rnd))
        if i % 10 == 0:
            m = records.call_message(rnd)
            evs.append(calls.hist(calls.call_message(m, True), calls.call_message(m)))
    for o, w, f in off:
        for _ in range(c.n(15, 60)):  # one field different
            other = records.call_message(rnd)
            add(base[:o] + other[o : o + w] + base[o + w :])
        ev, m = [], base  # and again, other things being equal
        for _ in range(c.n(15, 50)):
            ev.append(calls.call_message(m))
            part = dv.twin(rnd, m[o : o + w]) if f["k"] == "t" or f["n"] not in ("", "protocol") and f["k"] not in ("bcd", "f4", "f8") else records.call_message(rnd)[o : o + w]
            m = m[:o] + part + m[o + w :]
        evs.append(calls.hist(*ev))
        if f["k"] in ("u", "dec", "sec") and w == 4:
            for v in [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304, 86399, 86400, 5097600, 5184000] + around(1 << 32):
                add(base[:o] + v.to_bytes(4, "little") + base[o + w :])
        if f["k"] == "bcd":
            for k in range(w):
                for v in (0x0A, 0xA0, 0xFF, 0x1E, 0xE1, 0x99):
                    b = bytearray(base)
                    b[o + k] = v
                    add(bytes(b))
        if f["n"] == "protocol":
            for v in range(256):
                b = bytearray(base)
                b[o] = v
                add(bytes(b))
    for k in range(len(base)):
        add(base[:k])
    c.validate("TraceCalls", evs, what="call messages")
    # and as they come: inside a request frame
    evs = []
    for _ in range(c.n(180, 600)):
        m = records.call_message(rnd)
        f = wire.frame(wire.REQ, 0x87, m, (0, 0), (rnd.randrange(65536), rnd.randrange(256)))
        e = calls.dec(wire.REQ, wire.unescape(wire.escape(f)))
        ack = calls.call_response(0, 0, rnd.choice([0, 65535, rnd.randrange(65536)]), rnd.randrange(256))
        evs.append(calls.hist(e, calls.call_message(bytes(e["out"].get("d", b""))), ack))
        g = bytearray(f)
        g[rnd.randrange(len(g))] ^= rnd.randrange(1, 256)
        evs.append(calls.hist(calls.dec(wire.REQ, bytes(g))))
    c.validate("TraceCalls", evs, what="call messages inside request frames")
