"""Checks of the client (C15, C16) and of isolation (C23)."""
import json
import re

from . import calls, clients, device as dv, preempt, records, session, wire
from .checks import CONTENT, PROBE, WIRE, around, check, wander
from .checks_links import lives as transport_lives
from .session import Cfg, History, Req

PAGING = ["readout-object-count", "readout-objects", "readout-failed"]
num = lambda v: sum(d << (8 * i) for i, d in enumerate(v["d"]))
un = lambda s: json.loads(json.loads('"' + s + '"'))
WIRE_BUT_ADDRESSES = [x for x in WIRE if x not in ("wire-destination", "wire-source")] + CONTENT
LINKS = ("script", "tcp", "serial")


def emitted(r, what):
    return [un(m) for m in re.findall(r'^"%s (.*)"$' % what, r.out, re.M)]


def rand_client_cfg(rnd, enc=None):
    enc = rnd.random() < 0.4 if enc is None else enc
    return Cfg(0, 0, 0, 0, dv.rand_key(rnd) if enc else None, rnd.randrange(1, 8) if enc else None)


def working(h, c=1):
    """Reconnect, then a normal exchange or two: no trace of anything before."""
    cfg = h.cfgs[c - 1]
    h.disconnect(c=c)
    h.connect(c=c)
    for kind in ("time", "byid", "values"):
        h.call(Req(kind), [wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher)], c=c)


def client_model(c, enc):
    r = c.model("MCClient", "MCClient_" + ("enc" if enc else "plain"))
    alphabet = emitted(r, "ALPHABET")[0]
    chunks = {k: bytes(v) for k, v in alphabet["chunks"].items()}
    cfg = Cfg(0, 0, 0, 0, bytes(alphabet["cfg"]["key"]) or None, alphabet["cfg"]["kid"] or None)
    pw = "".join(map(chr, alphabet["pw"]["d"]))
    tests = emitted(r, "TEST")
    prefixes = {json.dumps(t[:-1]) for t in tests}
    tests = [t for t in tests if json.dumps(t) not in prefixes]
    out = []
    for li, link in enumerate(LINKS):
        for i in range(0, len(tests), CHAIN):
            # quick: every plain test over one kind of transport, one in three of the encrypted ones
            if not c.thorough and ((i // CHAIN + c.seed) % len(LINKS) != li or enc and i // CHAIN // 3 % 3 != c.seed % 3):
                continue
            chain = tests[i : i + CHAIN]
            h = clients.ClientHistory(dv.rng(c.seed, "mcc", i, link), "model: " + " / ".join(" ".join(e["x"] or e["op"] for e in t) for t in chain))
            h.new(cfg, pw=pw, link=link)
            h.connect()
            for k, t in enumerate(chain):
                if k:
                    h.disconnect()
                    h.connect()
                perform(h, t, alphabet, chunks, pw)
            working(h)
            out.append(h.json())
    return out


CHAIN = 3  # tests in one history; they begin with a connect, which leaves no trace of what was before


def perform(h, t, alphabet, chunks, pw):
    j = 0
    while j < len(t):
        e = t[j]
        j += 1
        if e["op"] == "connect":
            h.disconnect()
            h.connect()
            continue
        q = alphabet["calls"].get(e["x"])
        reads, bad = [], False
        while j < len(t) and t[j]["op"] in "wr":
            if t[j]["op"] == "w":
                bad |= t[j]["x"] == "fail"
            else:
                reads.append(None if t[j]["x"] == "fail" else chunks[t[j]["x"]])
            j += 1
        if e["op"] == "await":
            h.wait(reads)
            continue
        req = Req(q["k"], pw=pw, a=num(q["a"]), x=num(q["x"]), y=num(q["y"]), tm=tuple(q["tm"]["d"]))
        (h.ask if e["op"] == "ask" else h.call)(req, reads, bad)


def rand_page(rnd, L, amount, number=0, end=0, cfg=None):
    recs = [records.record(t, records.body(rnd, L[t]["layout"])) for t in (rnd.choice(sorted(L)) for _ in range(amount))]
    return b"".join(recs)


def random_client(c, what, i, L, steps=8):
    rnd = dv.rng(c.seed, what, i)
    h = clients.ClientHistory(rnd, "random client")
    cfg = rand_client_cfg(rnd)
    if rnd.random() < 0.2:
        own = dv.rand_cfg(rnd, False)
        cfg.d1, cfg.d2, cfg.s1, cfg.s2 = own.d1, own.d2, own.s1, own.s2
    h.new(cfg, pw=dv.rand_pw(rnd) if rnd.random() < 0.9 else rnd.choice(["", "abcde", "abcdefg", "abcde\u20ac"]),
          link=LINKS[i % 3])
    if rnd.random() < 0.9:
        h.connect(rnd.random() < 0.9)
    for _ in range(rnd.randrange(2, steps)):
        x = rnd.random()
        if x < 0.12:
            h.disconnect(rnd.random() < 0.8)
            h.connect(rnd.random() < 0.85)
        elif x < 0.15:
            (h.connect if rnd.random() < 0.5 else h.disconnect)()
        elif x < 0.18:
            h.change(dv.rand_cfg(rnd, False) if rnd.random() < 0.7 else None, dv.rand_pw(rnd) if rnd.random() < 0.6 else None)
        else:
            one_call(h, rnd, cfg, L)
    working(h)
    return h.json()


def one_call(h, rnd, cfg, L, c=1, kind=None, halves=True):
    r = dv.rand_req(rnd, kind)
    if r.k == "params":
        r.x = dv.pick(rnd, rnd.choice([0, 1, 13, 254, 255, 256, 3355, 65535, 65536, rnd.randrange(65536)]), 65536)
    if rnd.random() < 0.06:
        b = dv.bad_req(rnd, r.k if r.k not in ("time", "values") else None)
        if b.k in ("write", "bytime") and b.tm is None:
            b.tm = (1999, 1, 2, 3, 4, 5)
        r = b
    reads = []
    y = rnd.random()
    if y < 0.3:
        for _ in range(rnd.randrange(1, 4)):
            reads += dv.cuts(rnd, dv.skipped(rnd, cfg))
    if y > 0.9:
        reads += [None]
    elif y > 0.85:
        reads += dv.cuts(rnd, dv.error(rnd, cfg))
    elif y > 0.8:
        reads += dv.cuts(rnd, dv.foreign(rnd, cfg, r.k))
    elif y > 0.76:
        reads += dv.cuts(rnd, dv.answer(rnd, cfg, wire.SVC[r.k], dv.bad_payload(rnd, r.k)))
    else:
        if r.k == "params" and rnd.random() < 0.9:
            n, pos = rnd.randrange(1, 4), r.x if isinstance(r.x, int) else 0
            for k in range(n):
                a = rnd.randrange(1, 4)
                reads += dv.cuts(rnd, clients.page(cfg, rnd, pos % 65536 if pos >= 0 else 0, a, int(k == n - 1), rand_page(rnd, L, a)))
                pos += a
        else:
            t = dv.good(rnd, cfg, r.k)
            if 0.5 < y < 0.55:  # a second telegram right behind
                t += dv.good(rnd, cfg, r.k)
            parts = dv.cuts(rnd, t)
            if 0.55 < y < 0.6:  # the link fails in the middle
                parts = parts[:-1] + [parts[-1][:-1], None]
            reads += parts
    reads = [x for x in reads if x is None or x]
    if not halves or rnd.random() < 0.65:
        h.call(r, reads, rnd.random() < 0.04, c)
        return
    k = rnd.randrange(0, 3) if rnd.random() < 0.6 else len(reads)
    if rnd.random() < 0.9:
        h.ask(r, reads[:k], rnd.random() < 0.04, c)
    if rnd.random() < 0.9:
        h.wait(reads[k:], c)
    while rnd.random() < 0.25:
        h.wait([dv.good(rnd, cfg, r.k)] if rnd.random() < 0.3 else [], c)


def client_requests(c):
    """What clients put on the wire for the arguments of their calls (C04)."""
    hs = []
    for i in range(c.n(120, 2000)):
        rnd = dv.rng(c.seed, "C04c", i)
        h = clients.ClientHistory(rnd, "requests of a client")
        cfg = rand_client_cfg(rnd, i % 4 == 0)
        if i % 3 == 0:
            own = dv.rand_cfg(rnd, False)
            cfg.d1, cfg.d2, cfg.s1, cfg.s2 = own.d1, own.d2, own.s1, own.s2
        h.new(cfg, pw=dv.rand_pw(rnd), link="script")
        h.connect()
        for _ in range(5):
            r = dv.rand_req(rnd)
            if rnd.random() < 0.4:
                r.y = rnd.choice([0, 1, 255, 256, 65535])
            if rnd.random() < 0.4:
                r.x = rnd.choice([0, 1, 255, 256, 65535])
            if r.k == "params":
                n = rnd.randrange(1, 4)
                reads = [clients.page(cfg, rnd, r.x, 1, int(k == n - 1), bytes.fromhex("050015") + b"\0\0") for k in range(n)]
            else:
                reads = [dv.good(rnd, cfg, r.k)]
            if rnd.random() < 0.2:
                h.change(dv.rand_cfg(rnd, False) if rnd.random() < 0.7 else None, dv.rand_pw(rnd) if rnd.random() < 0.6 else None)
            (h.ask if rnd.random() < 0.1 and r.k != "params" else h.call)(r, reads)
            h.disconnect()
            h.connect()
        hs.append(h.json())
    c.validate("TraceClient", hs, CONTENT + PAGING + ["returned-value", "wire-padding"]
               + [x for x in WIRE if x.startswith("wire-envelope")], "requests sent by clients")


@check
def C15(c):
    hs = client_model(c, False) + client_model(c, True)
    c.validate("TraceClient", hs, PAGING, "transitions of MCClient performed by clients over three kinds of transport")
    L = records.layouts()
    hs = [random_client(c, "C15", i, L) for i in range(c.n(450, 9000))]
    c.validate("TraceClient", hs, PAGING, "random calls, faults and reconnects")
    hs = []
    for j, n in enumerate([40, 300, c.n(2500, 5000)] + [k for k in around(2500) if k > 8][:6]):  # a long time until the answer
        for link in LINKS if n < 1000 else ("script",):
            rnd = dv.rng(c.seed, "C15many", n, link)
            cfg = rand_client_cfg(rnd, n == 40)
            h = clients.ClientHistory(rnd, f"{n} reads in one call")
            h.LIMIT = 3 * n + 3000
            h.world.spin = 40 * n + 5000
            h.new(cfg, pw=dv.rand_pw(rnd), link=link, timeout=1000)
            h.connect()
            for kind in rnd.sample([k for k in dv.KINDS if k != "params"], 2):
                h.call(dv.rand_req(rnd, kind), [dv.noise(rnd)[-9:] for _ in range(n)] + [dv.good(rnd, cfg, kind)])
            working(h)
            hs.append(h.json())
    c.validate("TraceClient", hs, PAGING, "very many reads in one call")
    from .checks_secrets import Capture

    with Capture() as cap:  # everything is logged and rendered; it must make no difference
        hs = [random_client(c, "C15log", i, L) for i in range(c.n(60, 1000))]
    c.validate("TraceClient", hs, PAGING, "random calls, faults and reconnects, with all logging on")


@check
def C16(c):
    r = c.model("MCPaging", "MCPaging_deep" if c.thorough else None)
    tests = sorted({json.dumps(t, sort_keys=True) for t in emitted(r, "TEST")})
    rnd = dv.rng(c.seed, "C16")
    if len(tests) > c.n(1000, 15000):
        tests = sorted(rnd.sample(tests, c.n(1000, 15000)))
    hs = []
    for i, t in enumerate(map(json.loads, tests)):
        rnd = dv.rng(c.seed, "C16m", i)
        h = clients.ClientHistory(rnd, "model: paging")
        cfg = rand_client_cfg(rnd, i % 4 == 3)
        h.new(cfg, link=LINKS[i % 3])
        h.connect()
        reads = []
        for p in t["pages"]:
            if p["k"] == "page":
                reads += dv.cuts(rnd, clients.page(cfg, rnd, p["number"], p["amount"], p["end"], bytes(p["data"])),
                                 0 if rnd.random() < 0.7 else None)
            elif p["k"] == "error":
                reads.append(dv.answer(rnd, cfg, wire.SVC["params"], b"\1"))
            elif p["k"] == "foreign":
                reads.append(dv.answer(rnd, cfg, 101, b"\1\2"))
            else:
                reads.append(None)
        # more of the same, should it go on asking
        last = [p for p in t["pages"] if p["k"] == "page"][-1:]
        if last and t["pages"][-1]["k"] == "page":
            p = last[0]
            extra = [clients.page(cfg, rnd, p["number"], p["amount"], 1, bytes(p["data"]))]
        else:
            extra = []
        h.call(Req("params", x=t["from"]), reads + extra)
        working(h)
        hs.append(h.json())
    c.validate("TraceClient", hs, what="read-outs of MCPaging performed by clients")
    L = records.layouts()
    hs = []
    for i in range(c.n(220, 4000)):
        rnd = dv.rng(c.seed, "C16", i)
        h = clients.ClientHistory(rnd, "random read-out")
        cfg = rand_client_cfg(rnd)
        h.new(cfg, link=LINKS[i % 3])
        h.connect()
        for _ in range(rnd.randrange(1, 3)):
            readout(h, rnd, cfg, L)
        working(h)
        hs.append(h.json())
    for i in range(c.n(60, 1200)):  # the same device again, something in it has changed
        rnd = dv.rng(c.seed, "C16again", i)
        h = clients.ClientHistory(rnd, "read out again")
        cfg = rand_client_cfg(rnd)
        h.new(cfg, link=LINKS[i % 3])
        h.connect()
        types = [rnd.choice(sorted(L)) for _ in range(rnd.choice([1, 2, 4, 9]))]
        bodies = [records.body(rnd, L[t]["layout"], rows=2) for t in types]
        start, n = rnd.choice([0, 0, 0, 3, rnd.randrange(60000)]), rnd.choice([1, 1, 2, 3])
        at = None
        for _ in range(rnd.randrange(2, 5)):
            total = b"".join(records.record(t, b) for t, b in zip(types, bodies))
            if at is None or rnd.random() < 0.2:
                at = sorted(rnd.randrange(len(total) + 1) for _ in range(n - 1))
            parts = [total[a:b] for a, b in zip([0] + at, at + [len(total)])]
            if rnd.random() < 0.15:  # this one fails half way
                h.call(Req("params", x=start), [clients.page(cfg, rnd, start, 1, 0, parts[0]), dv.error(rnd, cfg)])
            h.call(Req("params", x=start), [clients.page(cfg, rnd, (start + k) % 65536, 1, int(k == n - 1), p) for k, p in enumerate(parts)])
            if rnd.random() < 0.2:
                h.disconnect()
                h.connect()
            k = rnd.randrange(len(types))
            if rnd.random() < 0.8:
                bodies[k] = records.twin(rnd, L[types[k]]["layout"], bodies[k], 2)
            elif rnd.random() < 0.5:
                j = rnd.randrange(len(types))
                bodies[j], bodies[k], types[j], types[k] = bodies[k], bodies[j], types[k], types[j]
        working(h)
        hs.append(h.json())
    for n in c.n([120, 2500], [120, 300, 1100, 5000]) + [x for x in around(1500) if x > 8][:4]:  # many small pages
        rnd = dv.rng(c.seed, "C16many", n)
        h = clients.ClientHistory(rnd, f"{n} pages")
        h.LIMIT = 3 * n + 3000
        cfg = rand_client_cfg(rnd, False)
        h.new(cfg, link="script")
        h.connect()
        total = b"".join(rand_page(rnd, L, 1) for _ in range(10))
        at = sorted(rnd.randrange(len(total) + 1) for _ in range(n - 1))
        parts = [total[a:b] for a, b in zip([0] + at, at + [len(total)])]
        h.call(Req("params", x=7), [clients.page(cfg, rnd, 7 + k, 1, int(k == n - 1), p) for k, p in enumerate(parts)])
        working(h)
        hs.append(h.json())
    c.validate("TraceClient", hs, what="random read-outs of all parameter types")


def readout(h, rnd, cfg, L):
    start = dv.pick(rnd, rnd.choice([0, 0, 1, 250, 255, 256, 1000, 65530, rnd.randrange(65536)]), 65536, 0.2)
    n = dv.pick(rnd, rnd.choice([1, 2, 3, 5, 8]), 70, 0.2) or 1
    amounts = [dv.pick(rnd, rnd.choice([1, 1, 2, 3, 256 if rnd.random() < 0.2 else 1]), 65536, 0.1) for _ in range(n)]
    total = b"".join(rand_page(rnd, L, rnd.randrange(0, 3)) for _ in range(n)) + rand_page(rnd, L, 1)
    if rnd.random() < 0.1:
        total = total[: rnd.randrange(len(total))]  # the stream ends inside an object
    at = sorted(rnd.randrange(len(total) + 1) for _ in range(n - 1))
    parts = [total[a:b] for a, b in zip([0] + at, at + [len(total)])]
    if rnd.random() < 0.2:  # pages that are all alike
        unit = rand_page(rnd, L, 1)
        parts = [unit] * n if rnd.random() < 0.5 else [rnd.choice([unit, b"", unit, rand_page(rnd, L, 1)]) for _ in range(n)]
    reads, pos = [], start
    for k in range(n):
        if rnd.random() < 0.15:
            reads += dv.cuts(rnd, dv.skipped(rnd, cfg))
        end = 0 if k < n - 1 else rnd.choice([1, 1, 255, 0x80])
        x = rnd.random()
        if x < 0.03:
            reads.append(None)
        elif x < 0.06:
            reads.append(dv.error(rnd, cfg))
        elif x < 0.08:
            amounts[k] = 0
        # the number the device says it starts with is not what decides
        number = pos if rnd.random() < 0.8 else rnd.randrange(65536)
        reads += dv.cuts(rnd, clients.page(cfg, rnd, number % 65536, amounts[k], end, parts[k]))
        pos += amounts[k]
    h.call(Req("params", x=start), [x for x in reads if x is None or x])


# ---------------------------------------------------------------------------
class Pick:
    """A history seen as the history of one of several connections."""

    def __init__(self, h, c):
        self.h, self.c = h, c
        self.cfgs = h.cfgs

    def __getattr__(self, name):
        return getattr(self.h, name)


def interleaved_sessions(c, i):
    """Several random sessions, their operations interleaved."""
    rnd = dv.rng(c.seed, "C23", i)
    h = History("interleaved sessions")
    n = rnd.choice([2, 2, 3])
    same = rnd.random() < 0.3
    base = dv.rand_cfg(rnd)
    lives = []
    late = rnd.random() < 0.4
    for k in range(n):
        cfg = base if same else dv.rand_cfg(rnd)
        if not same and k and base.cipher and rnd.random() < 0.5:  # the same key id with another key, or the same key with another id
            cfg.key, cfg.kid = (dv.rand_key(rnd), base.kid) if rnd.random() < 0.5 else (base.key, base.kid and base.kid % 7 + 1)
        lives.append([cfg, 0, b"", None])
        if not late:
            h.new(cfg)
    for _ in range(rnd.randrange(6, 30)):
        if late and len(h.cfgs) < n and (not h.cfgs or rnd.random() < 0.2):
            h.new(lives[len(h.cfgs)][0])
        k = rnd.randrange(1, len(h.cfgs) + 1)
        life = lives[k - 1]
        x = rnd.random()
        if x < 0.3:
            r = dv.rand_req(rnd) if rnd.random() < 0.85 else dv.bad_req(rnd)
            if h.send(r, k)["k"] == "bytes":
                life[3] = r.k
        elif x < 0.5:
            h.next(k)
        elif life[2]:
            m = rnd.randrange(1, len(life[2]) + 1)
            h.recv(life[2][:m], k)
            life[2] = life[2][m:]
        else:
            cfg = life[0]
            t = dv.good(rnd, cfg, life[3] or rnd.choice(dv.KINDS))
            y = rnd.random()
            if y < 0.12:
                t = dv.error(rnd, cfg)
            elif y < 0.2:
                t = dv.skipped(rnd, cfg)
            elif y < 0.3:  # the answer to another connection's request, as it would be sealed for that one
                other = rnd.choice(lives)
                t = dv.good(rnd, other[0], other[3] or "time")
                if other[0].cipher and not cfg.cipher:
                    t = dv.noise(rnd)
            if rnd.random() < 0.5:
                h.recv(t, k)
            else:
                life[2] = t
    while len(h.cfgs) < n:
        h.new(lives[len(h.cfgs)][0])
    for k in range(1, n + 1):
        h.recv(b"\x0d", k)
        h.drain(k)
    for kind in ("time", "params"):
        for k in range(1, n + 1):
            h.send(Req(kind, x=k, y=k), k)
        for k in range(n, 0, -1):
            cfg = lives[k - 1][0]
            for q in dv.KINDS:
                h.recv(wire.response(wire.SVC[q], PROBE[q], cfg.cipher), k)
                if h.next(k)["k"] == "pdu":
                    break
    return h.json()


def interleaved_clients(c, i, L):
    rnd = dv.rng(c.seed, "C23c", i)
    h = clients.ClientHistory(rnd, "several clients")
    n = rnd.choice([2, 2, 3])
    link = LINKS[i % 3]
    cfgs = []
    for k in range(n):
        cfg = rand_client_cfg(rnd)
        cfgs.append(cfg)
        h.new(cfg, pw=dv.rand_pw(rnd), link=link, port=rnd.randrange(1, k + 1) if k and rnd.random() < 0.4 else None)
        if rnd.random() < 0.9:
            h.connect(c=k + 1)
    for _ in range(rnd.randrange(4, 12)):
        k = rnd.randrange(1, n + 1)
        x = rnd.random()
        if x < 0.15:
            h.disconnect(rnd.random() < 0.8, c=k)
            h.connect(rnd.random() < 0.9, c=k)
        elif x < 0.22:  # one cannot be connected; it is tried with the others
            h.disconnect(c=k)
            h.connect(False, c=k)
            for j in range(1, n + 1):
                if j != k and rnd.random() < 0.7:
                    h.disconnect(c=j)
                    h.connect(c=j)
            h.connect(c=k)
        else:
            one_call(h, rnd, cfgs[k - 1], L, k, rnd.choice(["time", "byid", "write", "values", None]))
    for k in range(1, n + 1):
        working(h, k)
    return h.json()


def product_histories(c, enc):
    """Behaviours of MCIsolation performed by two real connections."""
    r = c.model("MCIsolation", "MCIsolation_deep" if c.thorough else None)
    a = emitted(r, "ALPHABET")[0]
    tests = sorted({json.dumps(t) for t in emitted(r, "TEST")})
    rnd = dv.rng(c.seed, "product")
    if len(tests) > c.n(2500, 40000):
        tests = sorted(rnd.sample(tests, c.n(2500, 40000)))
    out = []
    cfgs = [Cfg(num(x["d1"]), num(x["d2"]), num(x["s1"]), num(x["s2"]), bytes(x["key"]) or None, x["kid"] or None)
            for x in a["cfgs"]]
    for t in map(json.loads, tests):
        h = History("model: isolation")
        for cfg in cfgs:
            h.new(cfg)
        for e in t:
            if e["op"] == "send":
                h.send(Req(e["x"], x=e["c"], y=e["c"]), e["c"])
            elif e["op"] == "recv":
                h.recv(bytes(a["chunks"][e["c"] - 1][e["x"]]), e["c"])
            else:
                h.next(e["c"])
        for k in (1, 2):
            h.drain(k)
            for q in ("time", "byid"):
                h.recv(wire.response(wire.SVC[q], PROBE[q], cfgs[k - 1].cipher), k)
                h.drain(k)
        out.append(h.json())
    return out


def preempted_sessions(c, i):
    """Two connections in two threads; the switches happen in the middle of calls."""
    rnd = dv.rng(c.seed, "C23p", i)
    h = History("two threads")
    cfgs = [dv.rand_cfg(rnd), dv.rand_cfg(rnd)]
    if cfgs[0].cipher and cfgs[1].cipher and rnd.random() < 0.4:
        cfgs[1].kid = cfgs[0].kid
    for cfg in cfgs:
        h.new(cfg)
    todo = []
    for k in (1, 2):
        ops = []
        for _ in range(3):
            r = dv.rand_req(rnd) if rnd.random() < 0.9 else dv.bad_req(rnd)
            ops.append(("send", r))
            t = dv.error(rnd, cfgs[k - 1]) if rnd.random() < 0.15 else dv.good(rnd, cfgs[k - 1], r.k, rnd.choice([None, 3]))
            if rnd.random() < 0.2:
                t = dv.skipped(rnd, cfgs[k - 1]) + t
            for part in dv.cuts(rnd, t, 0 if rnd.random() < 0.7 else None)[:4]:
                ops += [("recv", part), ("next", None)]
            ops += [("recv", b"\x0d"), ("next", None)]
        todo.append(ops)

    def do(k):
        op, x = todo[k - 1].pop(0)
        h.next(k) if op == "next" else getattr(h, op)(x, k)

    def kind(k):
        op, x = todo[k - 1][0]
        return op, x.k if op == "send" else "", bool(cfgs[k - 1].cipher)

    while todo[0] and todo[1] and not h.dead:
        a = rnd.choice((1, 2))
        b = 3 - a
        preempt.arm(rnd, kind(a), lambda: [do(b) for _ in range(min(len(todo[b - 1]), rnd.choice((1, 1, 2))))])
        do(a)
    for k in (1, 2):
        while todo[k - 1] and not h.dead:
            do(k)
    for k in (1, 2):
        h.drain(k)
    return h.json()


def preempted_calls(c, i):
    """One codec used by two threads at once."""
    rnd = dv.rng(c.seed, "C23c", i)
    L = records.layouts()

    def one(what):
        d = dv.rand_bytes(rnd, rnd.randrange(1, 30))
        k = rnd.choice(dv.KINDS)
        if what == "frames":
            x = wire.frame(rnd.choice([wire.RESP, wire.ENCRESP]), rnd.choice(list(wire.SVC.values())), d)
            return lambda: calls.resp(x)
        if what == "encode":
            return lambda: calls.enc(wire.REQ, wire.SVC[k], 1, 2, 3, 4, d)
        if what == "cipher":
            key, kid = dv.rand_key(rnd), rnd.randrange(1, 8)
            if rnd.random() < 0.5:
                return lambda: calls.seal(key, kid, d)
            e = wire.seal(key, kid, d, rnd=rnd)
            return lambda: calls.open_(key, kid, e)
        if what == "escape":
            x = d + b"\x0d"
            return (lambda: calls.esc(x)) if rnd.random() < 0.5 else (lambda: calls.unesc(wire.escape(x)))
        if what == "time":
            t = dv.rand_time(rnd)
            return (lambda: calls.fromdt(t)) if rnd.random() < 0.5 else (lambda: calls.todt(wire.time_bytes(t, 1, 0)))
        if what == "request":
            r = dv.rand_req(rnd)
            return lambda: calls.req(r)
        if what == "response":
            p = dv.payload(rnd, k)
            return lambda: calls.pdu(k, p)
        if what == "call":
            m = records.call_message(rnd)
            return lambda: calls.call_message(m)
        t = rnd.choice(sorted(L))
        if what == "export":
            body = records.body(rnd, L[t]["layout"])
            return lambda: calls.export(t, body)
        s = b"".join(records.record(t, records.body(rnd, L[t]["layout"])) for t in (t, rnd.choice(sorted(L))))
        return lambda: calls.params(s)

    what = ("params", "frames", "encode", "cipher", "escape", "time", "request", "response", "call", "params", "export")[i % 11]
    done = []
    a, b = one(what), one(what)
    preempt.arm(rnd, what, lambda: done.append(b()))
    ev = [a()]
    return calls.hist(*ev, *done, note="two threads: " + what)


def preempted_clients(c, i, L):
    rnd = dv.rng(c.seed, "C23q", i)
    h = clients.ClientHistory(rnd, "two clients in two threads")
    cfgs = [rand_client_cfg(rnd), rand_client_cfg(rnd)]
    for k in (1, 2):
        h.new(cfgs[k - 1], pw=dv.rand_pw(rnd))
        h.connect(c=k)
    for _ in range(4):
        a = rnd.choice((1, 2))
        b = 3 - a
        kind = rnd.choice(dv.KINDS)
        if not h.dead:
            preempt.arm(rnd, kind, lambda: one_call(h, rnd, cfgs[b - 1], L, b))
            one_call(h, rnd, cfgs[a - 1], L, a, kind)
    for k in (1, 2):
        working(h, k)
    return h.json()


@check
def C23(c):
    c.validate("TraceSession", product_histories(c, False), CONTENT, "interleavings of MCIsolation performed by two connections")
    hs = [interleaved_sessions(c, i) for i in range(c.n(350, 7000))]
    c.validate("TraceSession", hs, what="random interleavings of two or three connections")
    L = records.layouts()
    hs = [interleaved_clients(c, i, L) for i in range(c.n(200, 4000))]
    c.validate("TraceClient", hs, what="random interleavings of two or three clients")
    hs = [preempted_sessions(c, i) for i in range(c.n(150, 4000))]
    c.validate("TraceSession", hs, what="two connections in two threads, switched in the middle of calls")
    hs = [preempted_calls(c, i) for i in range(c.n(660, 20000))]
    c.validate("TraceCalls", hs, what="codecs used by two threads, switched in the middle of calls")
    hs = [preempted_clients(c, i, L) for i in range(c.n(60, 1500))]
    c.validate("TraceClient", hs, what="two clients in two threads, switched in the middle of calls")
    hs = [transport_lives(dv.rng(c.seed, "C23t", i), 2 + i % 2) for i in range(c.n(400, 8000))]
    c.validate("TraceTransport", hs, what="random interleavings of two or three transports")


# ---------------------------------------------------------------------------
# settings
# ---------------------------------------------------------------------------
def unval(v):
    """The Python value a tagged value stands for."""
    if v["t"] == "s":
        return "".join(map(chr, v["d"]))
    return {"i": num(v), "m": -num(v), "n": None}[v["t"]]


def settings_history(cfg, pw, pid):
    """A connection with these settings, if there may be one, and that it works with them."""
    from .checks import probe

    h = History("settings")
    h.new(cfg, pw, pid)
    if not h.dead and (cfg.key is None or cfg.kid is not None):
        for kind in ("params", "write"):
            good = isinstance(pw, str) and len(pw) == 6
            h.send(Req(kind, pw=pw if good else "abcdef", x=5, y=6))
            h.recv(wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher))
            h.next()
        probe(h)
    return h.json()


def some_password(rnd):
    if rnd.random() < 0.5:
        return rnd.choice([None, "", "abcdefg", "\u20acbcdef" * 3, 123456, "x" * rnd.randrange(300)])
    n, fill = rnd.choice([7, 8, 12]), rnd.choice([" ", "\0", "\n", "\t", "\r\n", "\u200b", "\xa0", "0"])
    word = "abcdefghijkl"[: rnd.randrange(7)]
    pad = (fill * n)[: n - len(word)]
    return rnd.choice([word + pad, pad + word, pad[: len(pad) // 2] + word + pad[len(pad) // 2 :]])


def settings_client(rnd, cfg, pw, pid):
    h = clients.ClientHistory(rnd, "settings")
    h.new(Cfg(0, 0, 0, 0, cfg.key, cfg.kid), pw=pw, pw_id=pid, link=rnd.choice(LINKS), timeout=rnd.choice([10, 10, None, 1, 30, 60]))
    if not h.dead and (cfg.key is None or cfg.kid is not None):
        h.connect()
        for kind in ("time", "values"):
            h.call(Req(kind), [wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher)])
        h.disconnect()
    return h.json()


@check
def C24(c):
    tests = c.tests("MCSettings", c.n("MCSettings", "MCSettings_deep"))
    hs, cs = [], []
    for i, t in enumerate(tests):
        rnd = dv.rng(c.seed, "C24", i)
        cfg = Cfg(*(unval(t[k]) for k in ("d1", "d2", "s1", "s2")), bytes(t["key"]) or None, t["kid"] or None)
        pw, pid = unval(t["pw"]), unval(t["pid"])
        hs.append(settings_history(cfg, pw, pid))
        # (what a client makes of a password that is no text is left open)
        if (cfg.d1, cfg.d2, cfg.s1, cfg.s2) == (258, 3, 1027, 5) and isinstance(pw, str):
            cs.append(settings_client(rnd, cfg, pw, pid))
    c.validate("TraceSession", hs, WIRE_BUT_ADDRESSES, "settings of the model given to a connection")
    c.validate("TraceClient", cs, WIRE + CONTENT, "settings of the model given to a client")
    hs, cs = [], []
    for i in range(c.n(900, 6000)):
        rnd = dv.rng(c.seed, "C24r", i)

        def some(top):
            k = rnd.randrange(12)
            if k == 0:
                return rnd.choice([None, "7", top + 1 + rnd.randrange(1 << rnd.randrange(1, 80)), -1 - rnd.randrange(1 << rnd.randrange(1, 80))])
            return rnd.choice([0, top, top - 1, 1, rnd.randrange(top + 1), rnd.randrange(top + 1)])

        cfg = Cfg(some(65535), some(255), some(65535), some(255))
        if rnd.random() < 0.4:
            cfg.key = bytes(rnd.randrange(256) for _ in range(16))
        if rnd.random() < (0.9 if cfg.key else 0.2):
            cfg.kid = rnd.randrange(1, 8)
        pw = dv.rand_pw(rnd) if rnd.random() < 0.9 else some_password(rnd)
        pid = rnd.randrange(801, 850) if rnd.random() < 0.85 else rnd.choice([None, "801", 800, 850, rnd.randrange(801), rnd.randrange(850, 1 << rnd.randrange(11, 80)), -rnd.randrange(801, 850)])
        hs.append(settings_history(cfg, pw, pid))
        if isinstance(pw, str):
            cs.append(settings_client(rnd, cfg, pw, pid))
    for pid in range(790, 860):  # every password id
        rnd = dv.rng(c.seed, "C24i", pid)
        hs.append(settings_history(Cfg(1, 2, 3, 4), "abcdef", pid))
        cs.append(settings_client(rnd, Cfg(), "abcdef", pid))
    c.validate("TraceSession", hs, WIRE_BUT_ADDRESSES, "random settings given to a connection")
    c.validate("TraceClient", cs, WIRE + CONTENT, "random settings given to a client")


# ---------------------------------------------------------------------------
# names
# ---------------------------------------------------------------------------
@check
def C25(c):
    from . import record

    entries = c.tests("MCNames")
    tables = {}
    for e in entries:
        tables.setdefault(e["t"], {})[e["n"]] = e["v"]
    c.validate("TraceCalls", [calls.hist(*calls.names(e["t"], e["n"])) for e in entries], what="names of the enumerations")
    record.NAMES = tables
    try:
        # archives by name in requests and answers, keys by name, over connections and clients
        hs, cs, evs = [], [], []
        for i in range(c.n(150, 2000)):
            rnd = dv.rng(c.seed, "C25", i)
            cfg = dv.rand_cfg(rnd, True)
            cfg.kid = 1 + i % 7
            h = History("by name")
            h.new(cfg)
            for a in rnd.sample(range(11), 3):
                kind = rnd.choice(["byid", "bytime"])
                r = dv.rand_req(rnd, kind)
                r.a = a
                h.send(r)
                data = bytes([rnd.choice([a, rnd.randrange(11)])]) + dv.payload(rnd, kind)[1:]
                h.recv(dv.answer(rnd, cfg, wire.SVC[kind], data))
                h.next()
            hs.append(h.json())
            g = clients.ClientHistory(rnd, "by name")
            cfg = Cfg(0, 0, 0, 0, cfg.key, cfg.kid)
            g.new(cfg, pw=dv.rand_pw(rnd), link="script")
            g.connect()
            for a in rnd.sample(range(11), 3):
                kind = rnd.choice(["byid", "bytime"])
                r = dv.rand_req(rnd, kind)
                r.a = a
                g.call(r, [dv.answer(rnd, cfg, wire.SVC[kind], bytes([rnd.choice([a, rnd.randrange(11)])]) + dv.payload(rnd, kind)[1:])])
            cs.append(g.json())
        c.validate("TraceSession", hs, what="archives and keys by name, with a connection")
        c.validate("TraceClient", cs, what="archives and keys by name, with a client")
        # services by name in frames, protocols in call messages, types in exports
        rnd = dv.rng(c.seed, "C25c")
        for svc in tables["ServiceNumber"].values():
            for t in (wire.REQ, wire.ENCREQ, wire.RESP, wire.ENCRESP):
                for _ in range(c.n(2, 20)):
                    d = dv.rand_bytes(rnd, rnd.randrange(30))
                    evs.append(calls.hist(calls.enc(t, svc, 1, 2, 3, 4, d), calls.dec(t, wire.frame(t, svc, d))))
                    if t in (wire.RESP, wire.ENCRESP):
                        evs.append(calls.hist(calls.resp(wire.frame(t, svc, d))))
        for a in range(11):
            for kind in ("byid", "bytime"):
                r = dv.rand_req(rnd, kind)
                r.a = a
                evs.append(calls.hist(calls.req(r), calls.pdu(kind, bytes([a]) + dv.payload(rnd, kind)[1:])))
        for _ in range(c.n(60, 600)):
            evs.append(calls.hist(calls.call_message(records.call_message(rnd))))
        L = records.layouts()
        for t in L:
            for _ in range(c.n(2, 20)):
                b = records.body(rnd, L[t]["layout"])
                evs.append(calls.hist(calls.export(t, b), calls.params(records.record(t, b))))
        c.validate("TraceCalls", evs, what="services, protocols and types by name")
    finally:
        record.NAMES = None
