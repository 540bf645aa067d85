"""The device's side of the wire, written independently of the code under test."""
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

END = 0x0D
SVC = dict(values=0x64, time=0x6C, write=0x71, params=0x70, byid=0x7C, bytime=0x7D)
OTHER_SVC = [0x65, 0x67, 0x7B, 0x68, 0x77, 0x79, 0x87, 0x91]
REQ, ENCREQ, RESP, ENCRESP = 0x84, 0x85, 0x86, 0x87


def escape(tele: bytes) -> bytes:
    out = bytearray()
    for b in tele[:-1]:
        if b == 0x0D:
            out += b"\x1b\x0e"
        elif b == 0x1B:
            out += b"\x1b\x1b"
        elif b == 0x8D:
            out += b"\x1b\x0f"
        else:
            out.append(b)
    out.append(tele[-1])
    return bytes(out)


def unescape(data: bytes) -> bytes:
    out = bytearray()
    i = 0
    while i < len(data):
        b = data[i]
        if b == 0x1B and i + 1 < len(data):
            n = data[i + 1]
            out += {0x0E: b"\x0d", 0x1B: b"\x1b", 0x0F: b"\x8d"}.get(n, bytes([b, n]))
            i += 2
        else:
            out.append(b)
            i += 1
    return bytes(out)


def lrc(s):
    r = 0
    for b in s:
        r ^= b
    return r


def checksum(s):
    return sum(s) & 255


def drc(s):
    r = 0
    for b in s:
        r = ((r << 1) | (r >> 7)) & 255
        r ^= b
    return r


def crc16(s):
    c = 0xFFFF
    for b in s:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return c


def frame(ftype, svc, data, d=(0, 0), s=(0, 0), length=None) -> bytes:
    n = len(data) + 15 if length is None else length
    body = bytes([0xFE, ftype, svc]) + (n & 0xFFFF).to_bytes(2, "little")
    body += d[0].to_bytes(2, "little") + bytes([d[1]])
    body += s[0].to_bytes(2, "little") + bytes([s[1]]) + bytes(data)
    return b"\x02" + body + bytes([lrc(body), checksum(body), drc(body), END])


def seal(key, kid, payload, pad=None, rnd=None, length=None, crc=None) -> bytes:
    if pad is None:
        k = (16 - (len(payload) + 2) % 16) % 16
        pad = bytes(rnd.randrange(256) for _ in range(k)) if rnd else bytes(k)
    n = len(payload) if length is None else length
    head = n.to_bytes(2, "little") + bytes([kid])
    c = crc16(head + payload + pad) if crc is None else crc
    e = Cipher(algorithms.AES(key), modes.CBC(key)).encryptor()
    return head + e.update(payload + pad + c.to_bytes(2, "little")) + e.finalize()


def open_envelope(key, env):
    d = Cipher(algorithms.AES(key), modes.CBC(key)).decryptor()
    plain = d.update(env[3:]) + d.finalize()
    return plain[: int.from_bytes(env[:2], "little")]


def response(svc, data, cipher=None, rnd=None, d=(0, 0), s=(1, 1)) -> bytes:
    """A whole response on the wire; cipher = (key, key id) or None."""
    if cipher:
        return escape(frame(ENCRESP, svc, seal(cipher[0], cipher[1], data, rnd=rnd), d, s))
    return escape(frame(RESP, svc, data, d, s))


def bcd(n):
    return (n // 10) << 4 | n % 10


def time_bytes(t, dst=0, sup=0):
    y, mo, d, h, mi, s = t
    return bytes(
        [bcd(s), bcd(mi), bcd(h) | dst << 7 | sup << 6, bcd(d), bcd(mo), bcd(y - 2000)]
    )
