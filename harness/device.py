"""Random requests, answers, noise and damage: what a connection may meet."""
import random

from . import focus, wire
from .session import Cfg, Req, same_instant

KINDS = ["values", "time", "write", "params", "byid", "bytime"]
RESERVED = [0x0D, 0x1B, 0x8D, 0x0E, 0x0F]


def rand_bytes(rnd, n, reserved=0.25):
    """Random bytes in which the reserved characters are frequent, and so are simple patterns."""
    b = some_bytes(rnd, n, reserved)
    return patterned(rnd, b) if n > 1 and rnd.random() < 0.12 else b


def patterned(rnd, b):
    """With a part that is all the same, or that comes twice."""
    n, b = len(b), bytearray(b)
    w = rnd.choice([n, n, 1 + rnd.randrange(n), 1 + rnd.randrange(n), min(n, rnd.choice([2, 4, 8, 16]))])
    i = rnd.choice([0, n - w, rnd.randrange(n - w + 1)])
    k = rnd.randrange(5)
    if k < 3:
        b[i : i + w] = bytes([rnd.choice([0, 0, 0xFF, 0xFF, rnd.randrange(256)])]) * w
    elif k == 3:
        unit = bytes(rnd.randrange(256) for _ in range(rnd.choice([2, 2, 4, 8, 10])))
        b[i : i + w] = (unit * w)[:w]
    else:
        b[i : i + w] = bytes(rnd.randrange(2) for _ in range(w))
    return bytes(b)


def twin(rnd, b, lo=0):
    """Bytes much like b, from lo on: what a table that remembers too little takes for b."""
    b, n = bytearray(b), len(b)
    w = n - lo
    if w < 1:
        return bytes(b)
    k = rnd.randrange(9)
    i = lo + rnd.randrange(w)
    if k == 0:  # one byte
        b[i] ^= rnd.randrange(1, 256)
    elif k == 1:  # one bit
        b[i] ^= 1 << rnd.randrange(8)
    elif k == 2:  # one byte in the middle
        b[lo + w // 3 + rnd.randrange((w + 2) // 3)] ^= rnd.randrange(1, 256)
    elif k == 3:  # the same bytes in another order
        if rnd.random() < 0.5:
            b[lo:] = b[lo:][::-1]
        else:
            j = lo + rnd.randrange(w)
            b[i], b[j] = b[j], b[i]
    elif k == 4:  # in the other case
        b[lo:] = bytes(b[lo:]).swapcase()
    elif k == 5:  # the latter half
        b[lo + w // 2 :] = rand_bytes(rnd, n - lo - w // 2)
    elif k == 6:  # all but the latter half
        b[lo : lo + w // 2] = rand_bytes(rnd, w // 2)
    elif k == 7:  # the same sum
        j = lo + rnd.randrange(w)
        b[i] = (b[i] + 1) & 255
        b[j] = (b[j] - 1) & 255
    else:  # the last byte
        b[-1] ^= rnd.randrange(1, 256)
    return bytes(b)


def some_bytes(rnd, n, reserved):
    f = focus.get()
    if not f:
        return bytes(
            rnd.choice(RESERVED) if rnd.random() < reserved else rnd.randrange(256) for _ in range(n)
        )
    out = bytearray()
    for _ in range(n):
        b = f.byte(rnd)
        out.append(b if b is not None else rnd.choice(RESERVED) if rnd.random() < reserved else rnd.randrange(256))
    b = f.blob(rnd)
    if b and len(b) <= n:
        i = rnd.choice([0, n - len(b), rnd.randrange(n - len(b) + 1)])
        out[i : i + len(b)] = b
    k = f.number(rnd, 1 << 32)
    if k is not None:  # a number that means something to the code, anywhere
        w = next((w for w in (1, 2, 4) if k < 1 << (8 * w)))
        w = rnd.choice([x for x in (1, 2, 4) if x >= w])
        if w <= n:
            i = rnd.choice([0, n - w, rnd.randrange(n - w + 1)])
            out[i : i + w] = k.to_bytes(w, rnd.choice(["little", "little", "big"]))
    return bytes(out)


def size(rnd, n, limit=1500):
    """A length: n, or one that means something to the code."""
    k = focus.get().number(rnd, limit, 0.25)
    return n if k is None else k


def pick(rnd, v, limit, p=0.3):
    """A number below limit: v, or one that means something to the code."""
    k = focus.get().number(rnd, limit, p)
    return v if k is None else k


def rand_time(rnd):
    y = rnd.choice([2000, 2099, 2024, 2023, rnd.randrange(2000, 2100)])
    mo = rnd.randrange(1, 13)
    last = [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    d = rnd.choice([1, last, rnd.randrange(1, last + 1)])
    h, mi, s = rnd.randrange(24), rnd.randrange(60), rnd.randrange(60)
    if rnd.random() < 0.08:
        h, mi, s = rnd.choice([(0, 0, 0), (0, 0, 0), (23, 59, 59), (12, 0, 0), (h, 0, 0), (h, mi, 0), (0, 0, s), (0, mi, 0)])
    if focus.get():
        y = 2000 + pick(rnd, y % 100, 100, 0.2)
        k = pick(rnd, y, 2100, 0.1)
        y = k if k >= 2000 else y
        mo = pick(rnd, mo, 13, 0.2) or 1
        last = [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        d = pick(rnd, min(d, last), last + 1, 0.2) or 1
        h, mi, s = pick(rnd, h, 24, 0.2), pick(rnd, mi, 60, 0.2), pick(rnd, s, 60, 0.2)
    return (y, mo, d, h, mi, s)


def rand_time_bytes(rnd):
    return wire.time_bytes(rand_time(rnd), rnd.randrange(2), rnd.randrange(2))


def bad_time_bytes(rnd):
    b = bytearray(rand_time_bytes(rnd))
    k = rnd.randrange(6)
    if k == 0:
        b[0] = rnd.choice([0x60, 0x99, 0x0A, 0xF1])
    elif k == 1:
        b[1] = rnd.choice([0x60, 0x75, 0x5B])
    elif k == 2:
        b[2] = rnd.choice([0x24, 0x2A, 0x39, 0x24 | 0x80])
    elif k == 3:
        b[3] = rnd.choice([0x00, 0x32, 0x1C, 0x99])
    elif k == 4:
        b[4] = rnd.choice([0x00, 0x13, 0x0D, 0x1B])
    else:
        b[5] = rnd.choice([0x9A, 0xA0, 0xFF])
    return bytes(b)


def rand_key(rnd):
    return rand_bytes(rnd, 16, 0.1)


def rand_cfg(rnd, enc=None):
    a = lambda: pick(rnd, rnd.choice([0, 1, 13, 27, 141, 255, 256, 65535, 3355, rnd.randrange(65536)]), 65536)
    b = lambda: pick(rnd, rnd.choice([0, 13, 27, 141, 255, rnd.randrange(256)]), 256)
    enc = rnd.random() < 0.4 if enc is None else enc
    return Cfg(a(), b(), a(), b(), rand_key(rnd) if enc else None, rnd.randrange(1, 8) if enc else None)


def rand_pw(rnd):
    if rnd.random() < 0.3:
        return "".join(chr(rnd.choice(RESERVED + [0, 255, 0xE9])) for _ in range(6))
    if rnd.random() < 0.1:  # one character only, blanks, or digits
        c = rnd.choice([" ", "\0", "0", "a", "\xff", "\n"])
        return rnd.choice([c * 6, c * 3 + "abc", "abc" + c * 3, c + "abcd" + c])
    return "".join(chr(pick(rnd, rnd.randrange(256), 256, 0.15)) for _ in range(6))


def num(rnd, bits):
    n = rnd.choice([0, 1, 13, 255, 256, (1 << bits) - 1, rnd.getrandbits(bits), rnd.getrandbits(bits)])
    return pick(rnd, n & ((1 << bits) - 1), 1 << bits)


def rand_req(rnd, kind=None):
    k = kind or rnd.choice(KINDS)
    new = Req(
        k,
        pw=rand_pw(rnd),
        a=rnd.randrange(11),
        x=num(rnd, 32 if k == "byid" else 16),
        y=num(rnd, 16),
        tm=rand_time(rnd),
    )
    last = rnd.__dict__.setdefault("requests", {})
    old = last.get(k)
    if old and rnd.random() < 0.25:  # the one before, but for one field
        r = Req(k, *old)
        what = rnd.choice(["pw", "pw", "a", "x", "y", "tm", "zone", "twin"])
        if what == "twin":
            what = rnd.choice(["pw", "pw", "x", "y"])
            v, bits = r.__dict__[what], 32 if k == "byid" and what == "x" else 16
            if what == "pw":
                v = twin(rnd, v.encode("latin-1")).decode("latin-1")
            else:
                v = int.from_bytes(twin(rnd, v.to_bytes(bits // 8, "little")), "little")
            r.__dict__[what] = v
        elif what != "zone":
            r.__dict__[what] = new.__dict__[what]
        else:
            r.tm = rnd.choice(same_instant(rnd, r.tm) or [r.tm])
        new = r
    last[k] = (new.pw, new.a, new.x, new.y, new.tm)
    return new


BAD_PW = ["", "a", "abcde", "abcdefg", "abcde\u20ac", "\u0159\u010d\u00e1bcd", None, 123456, "abcdefghij"]
BAD_NUM = [-1, -65536, None, "12", 1.5, b"\1", 1.0, 0.0, 255.0]


def bad_req(rnd, kind=None):
    """A request that cannot be encoded."""
    k = kind or rnd.choice([x for x in KINDS if x != "time"])
    r = rand_req(rnd, k)
    what = rnd.choice(
        {
            "values": ["pw"],
            "write": ["pw", "tm"],
            "params": ["pw", "x", "y"],
            "byid": ["pw", "a", "x", "y"],
            "bytime": ["pw", "a", "x", "tm"],
        }[k]
    )
    if what == "pw":
        r.pw = rnd.choice(BAD_PW)
    elif what == "a":
        r.a = rnd.choice([-1, 256, 1000, None, "1"])
    elif what in "xy":
        bits = 32 if (k, what) == ("byid", "x") else 16
        r.__dict__[what] = rnd.choice(BAD_NUM + [1 << bits, (1 << bits) + 13, 1 << 40])
    else:
        r.tm = rnd.choice([(1999, 12, 31, 23, 59, 59), (2100, 1, 1, 0, 0, 0), (1970, 1, 1, 0, 0, 0), None, (2999, 6, 5, 4, 3, 2)])
    return r


FIXED = {"values": 6, "time": 6, "params": 5, "byid": 1, "bytime": 1, "write": 0}


def payload(rnd, kind, size=None):
    """A decodable response payload (never a single non-zero byte)."""
    last = rnd.__dict__.setdefault("payloads", {})
    old = last.get(kind)
    if old and size is None and len(old) > FIXED[kind] + 2 and rnd.random() < 0.25:  # the one before, but for a little or nothing
        b = old
        if rnd.random() < 0.8:
            b = twin(rnd, old, FIXED[kind]) if rnd.random() < 0.7 else fixed_twin(rnd, kind, old)
    else:
        b = new_payload(rnd, kind, size)
    last[kind] = b
    return b


def fixed_twin(rnd, kind, b):
    """With another beginning."""
    b = bytearray(b)
    if kind in ("values", "time"):
        t = rnd.randrange(4)
        if t == 0:
            b[:6] = rand_time_bytes(rnd)
        else:
            b[2] ^= 0x40 * t  # the flags that go with the hour
    elif kind == "params":
        k = rnd.randrange(5)
        b[k] = (b[k] ^ 1) if k == 4 else b[k] ^ rnd.randrange(1, 256)
    elif kind in ("byid", "bytime"):
        b[0] = rnd.randrange(11)
    return bytes(b)


def new_payload(rnd, kind, size):
    n = rnd.choice([0, 1, 2, 5, 13, rnd.randrange(60)]) if size is None else size
    if size is None and focus.get():
        n = globals()["size"](rnd, n)
        if rnd.random() < 0.3:  # the length of the whole payload
            n = max(0, n - {"values": 25, "time": 9, "params": 5, "byid": 5, "bytime": 5, "write": 2}[kind])
    if kind == "values":
        return rand_time_bytes(rnd) + rand_bytes(rnd, n + 1) + rand_bytes(rnd, 8) + rand_bytes(rnd, 8) + rand_bytes(rnd, 2)
    if kind == "time":
        return rand_time_bytes(rnd) + rand_bytes(rnd, n + 3)
    if kind == "params":
        return rand_bytes(rnd, 2) + rand_bytes(rnd, 2) + bytes([rnd.choice([0, 0, 1, 255])]) + rand_bytes(rnd, n)
    if kind in ("byid", "bytime"):
        return bytes([rnd.randrange(11)]) + rand_bytes(rnd, 4) + rand_bytes(rnd, n)
    return rnd.choice([b"", b"\0", rand_bytes(rnd, 2 + n)])


def bad_payload(rnd, kind):
    """An undecodable one."""
    good = payload(rnd, kind)
    if kind == "values":
        return rnd.choice([bad_time_bytes(rnd) + good[6:], good[: rnd.randrange(2, 25)], b""])
    if kind == "time":
        return rnd.choice([bad_time_bytes(rnd) + good[6:], good[: rnd.randrange(2, 6)], b""])
    if kind == "params":
        return good[: rnd.choice([0, 2, 3, 4])]
    if kind in ("byid", "bytime"):
        return rnd.choice([bytes([rnd.randrange(11, 256)]) + good[1:], good[: rnd.choice([0, 2, 3, 4])]])
    return good


def answer(rnd, cfg, svc, data, cipher=Ellipsis):
    a = lambda: (rnd.choice([0, 13, 27, 141, rnd.randrange(65536)]), rnd.choice([0, 13, rnd.randrange(256)]))
    return wire.response(svc, data, cfg.cipher if cipher is Ellipsis else cipher, rnd, a(), a())


def good(rnd, cfg, kind, size=None):
    return answer(rnd, cfg, wire.SVC[kind], payload(rnd, kind, size))


def damage(rnd, tele):
    """One telegram, damaged.  May contain end characters of its own."""
    raw = bytearray(wire.unescape(tele))
    k = rnd.randrange(11)
    if k == 0:  # one byte, anywhere but the end character
        i = rnd.randrange(len(raw) - 1)
        raw[i] ^= rnd.randrange(1, 256)
    elif k == 1:  # one bit of data or redundancy
        i = rnd.randrange(3, len(raw) - 1)
        raw[i] ^= 1 << rnd.randrange(8)
    elif k == 2:  # cut short, end character kept
        del raw[rnd.randrange(1, len(raw) - 1) : -1]
    elif k == 3:  # a byte lost
        del raw[rnd.randrange(len(raw) - 1)]
    elif k == 4:  # a byte too many
        raw.insert(rnd.randrange(len(raw)), rnd.randrange(256))
    elif k == 5:  # two bytes swapped
        i = rnd.randrange(len(raw) - 2)
        raw[i], raw[i + 1] = raw[i + 1], raw[i]
        if raw[i] == raw[i + 1]:
            raw[i] ^= 0x55
    elif k == 6:  # on the wire, after escaping
        w = bytearray(tele)
        w[rnd.randrange(len(w) - 1)] ^= rnd.randrange(1, 256)
        return bytes(w)
    elif k == 7:  # one redundancy byte
        raw[-rnd.choice([2, 3, 4])] ^= rnd.randrange(1, 256)
    elif k == 8:  # length field
        n = int.from_bytes(raw[4:6], "little")
        n = (n + rnd.choice([-1, 1, 256, -256, 15, -15])) & 0xFFFF
        raw[4:6] = n.to_bytes(2, "little")
        fix_redundancy(raw)
    elif k == 9:  # service number no device has
        raw[3] = rnd.choice([0, 1, 0x66, 0x69, 0xFF, 0x72, 13])
        fix_redundancy(raw)
    else:  # another frame type
        raw[2] = rnd.choice([0x84, 0x85, 0x88, 0x80, 0x06])
        fix_redundancy(raw)
    return wire.escape(bytes(raw))


def fix_redundancy(raw):
    body = bytes(raw[1:-4])
    raw[-4:-1] = bytes([wire.lrc(body), wire.checksum(body), wire.drc(body)])


def tiny_frames():
    """Byte strings around the size of the smallest frame, with right check values."""
    out = []
    for t in (wire.RESP, wire.ENCRESP):
        for n in range(0, 13):
            body = (bytes([0xFE, t, 0x6C]) + n.to_bytes(2, "little") + bytes(7))[:n]
            for ln in (None, len(body) + 4, 0, 15):
                b = bytearray(body)
                if ln is not None and len(b) >= 5:
                    b[3:5] = ln.to_bytes(2, "little")
                b = bytes(b)
                out.append(b"\x02" + b + bytes([wire.lrc(b), wire.checksum(b), wire.drc(b), 0x0D]))
                out.append(b"\x02" + b + b"\x0d")
    return sorted(set(out))


def crossed_tail(svc=0x6C, ftype=wire.RESP):
    """Short telegrams whose redundancy bytes overlap the header."""
    out = []
    for n in range(4, 16):
        for total in range(5, 16):
            raw = bytearray(b"\x02\xfe" + bytes([ftype, svc]) + n.to_bytes(2, "little") + bytes(16))[: total - 1]
            raw.append(0x0D)
            if len(raw) >= 9:
                fix_redundancy(raw)
            out.append(bytes(raw))
    return out


def noise(rnd):
    n = globals()["size"](rnd, rnd.choice([0, 1, 2, 3, 7, 15, 16, 40]))
    b = bytes(x for x in rand_bytes(rnd, n) if x != 0x0D)
    k = rnd.randrange(7)
    if k == 6:  # the same byte over and over, as an idle line shows it
        b = bytes([pick(rnd, rnd.choice([0, 0xFF, 0x20, 0x0A, 0x02, 0x1B, 0x7E, 0x55]), 256)]) * (1 + n)
        b = b.replace(b"\x0d", b"\x0c")
    if k == 0:
        b = b"\x02\xfe\x86" + b
    elif k == 1:
        b = b"\x02\xfe\x87\x6c" + b
    elif k == 2:
        b = b + b"\x1b"
    return b + b"\x0d"


def bad_envelope(rnd, cfg, kind="time"):
    """An encrypted response the connection (with a key) must not accept."""
    key, kid = cfg.cipher
    data = payload(rnd, kind)
    e = bytearray(wire.seal(key, kid, data, rnd=rnd))
    k = rnd.randrange(9)
    if k == 0:
        e[rnd.randrange(len(e))] ^= rnd.randrange(1, 256)
    elif k == 1:  # another key
        k2 = bytearray(key)
        k2[rnd.randrange(16)] ^= 1 << rnd.randrange(8)
        e = wire.seal(bytes(k2), kid, data, rnd=rnd)
    elif k == 2:  # another key id, consistently
        e = wire.seal(key, kid % 7 + 1, data, rnd=rnd)
    elif k == 3:  # not whole blocks
        e = e[: -rnd.randrange(1, 16)] if rnd.random() < 0.5 else e + rand_bytes(rnd, rnd.randrange(1, 16))
    elif k == 4:  # blocks lost
        e = e[:3] if len(e) <= 19 else e[:-16]
    elif k == 5:  # header only or less
        e = e[: rnd.randrange(0, 4)]
    elif k == 6:  # declares more than there is, with a right CRC
        e = wire.seal(key, kid, data, rnd=rnd, length=len(data) + 16 + rnd.randrange(60))
    elif k == 7:  # CRC bytes swapped
        c = wire.crc16(len(data).to_bytes(2, "little") + bytes([kid]) + data + b"")
        e = wire.seal(key, kid, data, rnd=rnd, crc=((c << 8) | (c >> 8)) & 0xFFFF ^ 0x1234)
    else:  # one length byte changed only
        e[rnd.randrange(2)] ^= 1 << rnd.randrange(8)
    return answer_raw(rnd, wire.SVC[kind], bytes(e))


def answer_raw(rnd, svc, env):
    return wire.escape(wire.frame(wire.ENCRESP, svc, env, (0, 0), (1, 1)))


def skipped(rnd, cfg):
    """Telegrams that are not a valid response: to be skipped."""
    k = rnd.randrange(7)
    if k == 0:
        return noise(rnd)
    if k == 1:
        return wire.escape(
            wire.frame(rnd.choice([wire.REQ, wire.ENCREQ]), rnd.choice(list(wire.SVC.values())), rand_bytes(rnd, rnd.randrange(20)))
        )
    if k == 2 and cfg.cipher:
        return bad_envelope(rnd, cfg, rnd.choice(KINDS))
    if k == 3:
        return b"\x0d"
    return damage(rnd, good(rnd, cfg, rnd.choice(KINDS)))


def foreign(rnd, cfg, awaited):
    """Valid responses nobody asked for."""
    k = rnd.randrange(3)
    if k == 0:
        return answer(rnd, cfg, rnd.choice(wire.OTHER_SVC), rand_bytes(rnd, 2 + rnd.randrange(10)))
    if k == 1 and not cfg.cipher:
        return answer(rnd, cfg, rnd.choice(list(wire.SVC.values())), rand_bytes(rnd, 20), (rand_key(rnd), 3))
    return good(rnd, cfg, rnd.choice([x for x in KINDS if x != awaited]))


def error_byte(rnd):
    return rnd.choice([1 << rnd.randrange(8), rnd.randrange(1, 256)])


def error(rnd, cfg, e=None, svc=None):
    svc = svc or rnd.choice(list(wire.SVC.values()) + wire.OTHER_SVC)
    # encrypted sessions may see plain errors as well
    cipher = cfg.cipher if rnd.random() < 0.7 else None
    return answer(rnd, cfg, svc, bytes([error_byte(rnd) if e is None else e]), cipher)


def cuts(rnd, data, style=None):
    """Divide data into chunks."""
    style = style if style is not None else rnd.randrange(5)
    if style == 0 or len(data) < 2:
        return [data]
    if style == 1:
        return [data[i : i + 1] for i in range(len(data))]
    if style == 2:
        return [data[:-1], data[-1:]]
    if style == 3:
        i = rnd.randrange(1, len(data))
        return [data[:i], data[i:]]
    pts = sorted({rnd.randrange(1, len(data)) for _ in range(rnd.randrange(1, 8))})
    return [data[a:b] for a, b in zip([0] + pts, pts + [len(data)])]


def rng(seed, *what):
    return random.Random(":".join(map(str, (seed,) + what)))
