"""Test records for every parameter type, made from the layouts of the specification."""
import json
import re
import struct

from . import focus, tlc

_cache = {}


def layouts():
    if not _cache:
        r = tlc.run("DumpLayouts", workers=1, timeout=120)
        m = re.search(r'"LAYOUTS (.*)"', r.out)
        c = re.search(r'"CALL (.*)"', r.out)
        if not r.finished or not m or not c:
            raise tlc.TlcError("no layouts: " + r.error_text())
        un = lambda s: json.loads(json.loads('"' + s + '"'))
        _cache["types"] = {int(k): v for k, v in un(m.group(1)).items()}
        _cache["call"] = un(c.group(1))
    return _cache["types"]


def call_layout():
    layouts()
    return _cache["call"]


def rbytes(rnd, n):
    b = some_bytes(rnd, n)
    if n > 1 and rnd.random() < 0.1:
        b = bytes([rnd.choice([0, 0xFF, b[0]])]) * n if rnd.random() < 0.6 else (b[: rnd.choice([1, 2, 5, 10])] * n)[:n]
    return b


def some_bytes(rnd, n):
    f = focus.get()
    if not f:
        return bytes(rnd.randrange(256) for _ in range(n))
    k = f.number(rnd, 1 << (8 * n)) if n <= 8 else None
    if k is not None:
        return k.to_bytes(n, "little")
    out = bytearray()
    for _ in range(n):
        b = f.byte(rnd)
        out.append(rnd.randrange(256) if b is None else b)
    return bytes(out)


WORDS = ["Primary volume", "m3", "Tlak p1", "\u00e9\u00e8\u00fc", "A", "kWh", "x y  z", "UGFA-12\u00b0C"]


def text(rnd, w, mode):
    if mode == "zero":
        return bytes(w)
    if mode == "ones":
        return b"\xff" * w
    k = rnd.randrange(8)
    word = rnd.choice(WORDS).encode("latin-1")[:w]
    f = focus.get()
    if f:
        word = f.blob(rnd, 0.3) or word
        if f.literal and rnd.random() < 0.2:
            i = rnd.randrange(len(word) + 1)
            word = word[:i] + bytes([f.byte(rnd, 1)]) + word[i:]
        word = word[:w]
    if k == 0:
        return bytes(rnd.randrange(1, 256) for _ in range(w))  # no terminator at all
    if k == 1:
        return rbytes(rnd, w)
    if k == 2:
        return (bytes(rnd.randrange(33, 256) for _ in range(w - 1)) + b"\0")[:w]  # exactly full
    if k == 3:
        return (b" \t" + word + b"  \0" + bytes(w))[:w]
    if k == 4:
        return (word + b"\0" + bytes(rnd.randrange(33, 127) for _ in range(w)))[:w]  # rubbish behind
    if k == 5:
        return (word + b"\0" + word + bytes(w))[:w]  # inner NUL
    return (word + bytes(w))[:w]


def f4(rnd, mode, exact):
    if mode == "zero":
        return bytes(4)
    x = real(rnd)
    if x is not None and (not exact or x * 128 == int(x * 128) and abs(x) < 8192) and struct.unpack("<f", struct.pack("<f", x))[0] == x:
        return struct.pack("<f", x)
    if exact:  # survives rounding to seven decimals
        return struct.pack("<f", rnd.randrange(-(1 << 20), 1 << 20) / 128)
    if rnd.randrange(3) == 0:
        return struct.pack("<f", rnd.choice([0.0, 1.0, -1.0, 3.4e38, -3.4e38, 1e-38, 0.1, 101.325]))
    while True:
        b = rbytes(rnd, 4)
        x = struct.unpack("<f", b)[0]
        if x == x and abs(x) != float("inf"):
            return b


def real(rnd):
    f = focus.get().floats
    return rnd.choice(f) if f and rnd.random() < 0.3 else None


def f8(rnd, mode):
    if mode == "zero":
        return bytes(8)
    x = real(rnd)
    if x is not None:
        return struct.pack("<d", x)
    if rnd.randrange(3) == 0:
        return struct.pack("<d", rnd.choice([0.0, 1.0, 0.001, 1e300, -1e-300, 10.0, 0.1]))
    while True:
        b = rbytes(rnd, 8)
        x = struct.unpack("<d", b)[0]
        if x == x and abs(x) != float("inf"):
            return b


ROUNDED = {"digit", "lower_limit_measuring_range"}


def body(rnd, layout, mode="random", tail=None, rows=None):
    """A record body; mode random | zero | ones; tail: optional fields there?"""
    out = bytearray()
    nrows = 0
    for f in layout:
        k, w, n = f["k"], f["w"], f["n"]
        if k == "opt":
            if not (rnd.randrange(2) if tail is None else tail):
                break
        elif k in ("b", "m"):
            pass
        elif k == "rows":
            kinds = [rbytes(rnd, 10) for _ in range(rnd.choice([nrows, nrows, 2, 1]))]
            if len(kinds) < nrows or rnd.random() < 0.2:  # rows that come more than once
                kinds = [rnd.choice(kinds) for _ in range(nrows)] if kinds else []
            out += b"".join(kinds[:nrows])
        elif k == "t":
            out += text(rnd, w, mode)
        elif k == "f4":
            out += f4(rnd, mode, n in ROUNDED)
        elif k == "f8":
            out += f8(rnd, mode)
        elif n == "rows_in_window":
            nrows = rnd.choice([0, 1, 2, 3, 7, 20]) if rows is None else rows
            if rows is None and focus.get():
                k = focus.get().number(rnd, 256)
                nrows = nrows if k is None else k
            out.append(nrows)
        elif mode == "zero":
            out += bytes(w)
        elif mode == "ones":
            out += b"\xff" * w
        else:
            out += rbytes(rnd, w)
    return bytes(out)


def offsets(layout, rows=0):
    """(offset, width, field) of every field with bytes of its own; optional tail included."""
    pos, out = 0, []
    for f in layout:
        if f["k"] in ("opt", "b", "m"):
            continue
        w = f["w"] * rows if f["k"] == "rows" else f["w"]
        out.append((pos, w, f))
        pos += w
    return out


def twin(rnd, layout, b, rows):
    """The body b (made with that many rows) with one field changed, much or a little."""
    from . import device

    there = [(o, w, f) for o, w, f in offsets(layout, rows) if w and o + w <= len(b) and f["n"] != "rows_in_window"]
    if not there:
        return b
    o, w, f = rnd.choice(there)
    if f["k"] in ("f4", "f8") or rnd.random() < 0.4:
        new = body(rnd, layout, rows=rows, tail=True)[o : o + w]
    else:
        new = device.twin(rnd, b[o : o + w])
    return b[:o] + new + b[o + w :]


def record(t, b):
    return (len(b) + 3).to_bytes(2, "little") + bytes([t]) + b


def call_message(rnd, mode="random"):
    out = bytearray()
    for f in call_layout():
        k, w, n = f["k"], f["w"], f["n"]
        if k == "bcd":
            digits = {
                "zero": "0" * (2 * w),
                "ones": "9" * (2 * w),
            }.get(mode) or "".join(rnd.choice("0123456789") for _ in range(2 * w))
            if mode == "random" and rnd.randrange(2):
                z = rnd.randrange(2 * w)
                digits = "0" * z + digits[z:]
            out += bytes.fromhex(digits)
        elif n == "protocol":
            out.append(0 if mode == "zero" else rnd.randrange(4))
        elif k == "t":
            out += text(rnd, w, mode)
        elif n == "" :
            out += b"\0\0"
        elif mode == "zero":
            out += bytes(w)
        elif mode == "ones":
            out += b"\xff" * w
        else:
            out += rbytes(rnd, w)
    out[0:2] = len(out).to_bytes(2, "little")
    return bytes(out)
