"""Bytes behind the specification's runs (same function as harness/pattern.h)."""
import zlib
_b = bytearray()
_x = 12345
for _i in range(65521):
    _x = (_x * 1103515245 + 12345) & 0xffffffff
    _b.append((_x >> 16) & 255)
_b = bytes(_b)
_xor = [bytes(i ^ k for i in range(256)) for k in range(256)]

def pattern(t, o, n):
    if t == 0:
        return bytes(n)
    if t & 1:
        return bytes([t & 255]) * n
    out, p, end = [], o, o + n
    while p < end:
        k = p // 65521
        stop = min(end, (k + 1) * 65521)
        s = (p + t * 7919) % 65521
        ln = stop - p
        piece = _b[s:s + ln]
        while len(piece) < ln:
            piece += _b[:ln - len(piece)]
        out.append(piece if k == 0 else piece.translate(_xor[k & 255]))
        p = stop
    return b"".join(out)

def runs(r):
    return b"".join(pattern(x["t"], x["o"], x["n"]) for x in r)

def digest(b):
    return "%d:%08x" % (len(b), zlib.crc32(b) & 0xffffffff)
