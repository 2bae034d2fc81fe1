"""Independent reader of the container file layout (no code of the tool is used)."""
import struct, zlib
NONE = 0x7fffffff

def image(b):
    """The block image of a container: dict(end, head, blk{addr: cap, dlen, next}, toc[]) or an error text."""
    if len(b) < 16:
        return "shorter than the file header"
    head = struct.unpack_from("<I", b, 0)[0]
    blk, a = {}, 16
    while a < len(b):
        h = b[a:a + 31]
        if len(h) < 31 or h[:2] != b"\r\n" or h[29:31] != b"\r\n" or h[10:11] != b" " or h[19:20] != b" " or h[28:29] != b" ":
            return "no block header at %d" % a
        try:
            dlen, cap, nxt = int(h[2:10], 16), int(h[11:19], 16), int(h[20:28], 16)
        except ValueError:
            return "bad block header at %d" % a
        if dlen > NONE or nxt > NONE or a + 31 + cap > len(b):
            return "block at %d leaves the file" % a
        blk[a] = dict(cap=cap, dlen=dlen, next=nxt)
        a += 31 + cap
    toc = []
    img = dict(end=len(b), head=head, blk=blk, toc=toc)
    if 16 in blk:
        t = read_chain(b, blk, 16)
        if t is None:
            return "the table of contents is broken"
        for i in range(0, len(t) // 12 * 12, 12):
            h, d, f = struct.unpack_from("<III", t, i)
            toc.append(dict(h=h, d=d))
    return img

def read_chain(b, blk, a):
    out, seen, n = b"", set(), blk.get(a, {}).get("dlen")
    while a != NONE:
        if a not in blk or a in seen:
            return None
        seen.add(a)
        out += b[a + 31:a + 31 + blk[a]["cap"]]
        a = blk[a]["next"]
    return out[:n]

def members(b):
    """name -> raw bytes, by an independent reading."""
    img = image(b)
    res = []
    for e in img["toc"]:
        h = read_chain(b, img["blk"], e["h"])
        d = read_chain(b, img["blk"], e["d"]) if e["d"] not in (0, NONE) else b""
        name = h[20:].decode("utf-16-le").rstrip("\0")
        res.append((name, d, h[:20]))
    return res

def inflate(b):
    return zlib.decompress(b, -15) if b else b""

# ------------------------------------------------------------------- writer
def _block(data, nxt=NONE, cap=None):
    cap = cap or len(data)
    return b"\r\n%08x %08x %08x \r\n" % (len(data), cap, nxt) + data + bytes(cap - len(data))

def build(files, times=(0, 0)):
    """A container holding {name: bytes}; every chain is a single block."""
    toc_cap = max(512, 12 * len(files))
    out = struct.pack("<IIII", NONE, 512, len(files), 0)
    at = 16 + 31 + toc_cap
    toc, rest = b"", b""
    for name, data in files:
        h = struct.pack("<qqI", times[0], times[1], 0) + name.encode("utf-16-le") + b"\0\0\0\0"
        ha = at + len(rest)
        rest += _block(h)
        if data:
            da = at + len(rest)
            rest += _block(data, cap=max(512, len(data)))
        else:
            da = NONE
        toc += struct.pack("<III", ha, da, NONE)
    return out + _block(toc, cap=toc_cap) + rest

def deflate(b):
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    return c.compress(b) + c.flush()
