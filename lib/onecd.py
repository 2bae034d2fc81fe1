"""Builds and reads .1CD database files (formats 8.0 - 8.2.14 and 8.3.8) without any code of the tool.

Builder: pages, internal objects, long-value storage, index trees, tables, the root object.
Reader: Image(path) gives pages, objects with their pages, and raw contents."""
import re
import struct

OLD = ("8.0.3.0", "8.0.5.0", "8.1.0.0", "8.2.0.0", "8.2.14.0")
SIG = b"1CDBMSV8"
OSIG = b"1CDBOBV8"


class Blob:
    """Storage of long values: 256-byte blocks {next u32, len u16, 250 bytes}; block 0 heads the free list."""
    def __init__(self):
        self.blocks = [struct.pack("<IH", 0, 0) + bytes(250)]

    def add(self, data, order=None, cut=250):
        """Stores data in pieces of at most cut bytes; order permutes the block numbers used."""
        pieces = [data[i:i + cut] for i in range(0, len(data), cut)] or [b""]
        base = len(self.blocks)
        nums = [base + k for k in (order(len(pieces)) if order else range(len(pieces)))]
        self.blocks += [None] * len(pieces)
        for i, p in enumerate(pieces):
            nxt = nums[i + 1] if i + 1 < len(nums) else 0
            self.blocks[nums[i]] = struct.pack("<IH", nxt, len(p)) + p + bytes(250 - len(p))
        return nums[0]

    def bytes(self):
        return b"".join(self.blocks)


FSIZE = {"B": lambda l, p: l, "L": lambda l, p: 1, "N": lambda l, p: (l + 2) >> 1, "NC": lambda l, p: 2 * l,
         "NVC": lambda l, p: 2 * l + 2, "RV": lambda l, p: 16, "NT": lambda l, p: 8, "T": lambda l, p: 8,
         "I": lambda l, p: 8, "DT": lambda l, p: 7, "VB": lambda l, p: l + 2}


class F:
    def __init__(self, name, type, null=0, length=0, prec=0, case="CS"):
        self.name, self.type, self.null, self.length, self.prec, self.case = name, type, null, length, prec, case

    def size(self):
        return FSIZE[self.type](self.length, self.prec) + (1 if self.null else 0)

    def text(self):
        return '{"%s","%s",%d,%d,%d,"%s"}' % (self.name, self.type, self.null, self.length, self.prec, self.case)


class T:
    """A table: fields, indexes [(name, primary, [(field, len)])], records (raw bytes), blob, index trees."""
    def __init__(self, name, fields, indexes=(), recordlock=0):
        self.name, self.fields, self.indexes, self.recordlock = name, list(fields), list(indexes), recordlock
        self.blob = None
        self.records = []
        self.keys = None          # per index: list of (key bytes, record number) in order; None -> made up
        self.index_opts = {}
        self.raw_index = None
        self.text = None

    def hidden(self):
        return self.recordlock and not any(f.type == "RV" for f in self.fields)

    def layout(self):
        """field name -> offset, and the record length"""
        off, pos = {}, 1
        fs = list(enumerate(self.fields))
        for i, f in fs:
            if f.type == "RV":
                off[f.name] = pos
                pos += f.size()
        if self.hidden():
            off["VERSION"] = pos
            pos += 8
        for i, f in fs:
            if f.type != "RV":
                off[f.name] = pos
                pos += f.size()
        return off, max(pos, 5)

    def getblob(self):
        if self.blob is None:
            self.blob = Blob()
        return self.blob

    def record(self, vals, deleted=False, fill=0):
        """vals: field name -> raw stored bytes (without the null mark), or None for null."""
        off, n = self.layout()
        r = bytearray([fill]) * n
        r[0] = 1 if deleted else 0
        for f in self.fields:
            v = vals.get(f.name, b"")
            o = off[f.name]
            if f.null:
                r[o] = 0 if v is None else 1
                o += 1
            if v is None:
                v = b""
            assert len(v) <= FSIZE[f.type](f.length, f.prec), (f.name, len(v))
            r[o:o + len(v)] = v
        return bytes(r)

    def add(self, vals, **kw):
        self.records.append(self.record(vals, **kw))
        return len(self.records) - 1

    def long(self, data, **kw):
        """A long value as its 8 stored bytes; an empty one has no chain."""
        if not data:
            return bytes(8)
        return struct.pack("<II", self.getblob().add(data, **kw), len(data))

    def descr(self, files):
        ix = "".join(',\n{"%s",%d,%s}' % (n, p, ",".join('{"%s",%d}' % fl for fl in fs)) for n, p, fs in self.indexes)
        return '{"%s",0,\n{"Fields",\n%s\n},\n{"Indexes"%s},\n{"Recordlock","%d"},\n{"Files",%d,%d,%d}\n}' % (
            self.name, ",\n".join(f.text() for f in self.fields), ix, self.recordlock, *files)


def utf16(s):
    return s.encode("utf-16-le")


def nvc(s, length=None):
    b = utf16(s)
    return struct.pack("<H", len(b) // 2) + b + (b" \0" * (length - len(b) // 2) if length else b"")


def bcd_date(y, m, d, H=0, M=0, S=0):
    return bytes.fromhex("%04d%02d%02d%02d%02d%02d" % (y, m, d, H, M, S))


def number(sign, digits, length):
    """sign and all decimal digits (integer and fraction) of a number field of that length"""
    s = ("1" if sign >= 0 else "0") + digits.rjust(length, "0")
    if len(s) % 2:
        s += "0"
    return bytes.fromhex(s)


class SparsePages:
    """A list of pages some of which are left out."""
    def __init__(self, first):
        self.at = dict(enumerate(first))
        self.n = len(first)

    def skip(self, n):
        self.n += n

    def append(self, b):
        self.at[self.n] = b
        self.n += 1

    def __iadd__(self, xs):
        for b in xs:
            self.append(b)
        return self

    def __len__(self):
        return self.n

    def __setitem__(self, i, b):
        self.at[i] = b

    def __getitem__(self, i):
        return self.at[i]


class Db:
    def __init__(self, version="8.3.8.0", pagesize=4096, lang="ru_RU"):
        self.version, self.lang = version, lang
        self.new = version == "8.3.8.0"
        self.ps = pagesize if self.new else 4096
        self.pages = [None, None, None]     # header, free list, root object (filled in bytes())
        self.tables = []
        self.obj_of = {}
        self.free = []
        self.free_tab = []
        self.root_len = None
        self.extra_root = []
        self.layout_hook = None             # lets a test choose page numbers
        self.blocks_order = None

    # ------------------------------------------------ pages and objects
    def page(self, data=b""):
        self.pages.append(bytes(data) + bytes(self.ps - len(data)))
        return len(self.pages) - 1

    def alloc(self, n):
        base = len(self.pages)
        self.pages += [bytes(self.ps)] * n
        return list(range(base, base + n))

    def store(self, root, data, version=(1, 2, 3), level=None):
        """Writes the object with the given root page number."""
        ps = self.ps
        dp = self.alloc((len(data) + ps - 1) // ps)
        for i, p in enumerate(dp):
            self.pages[p] = data[i * ps:(i + 1) * ps].ljust(ps, b"\0")
        if not self.new:
            tabs = []
            for i in range(0, len(dp), 1023):
                part = dp[i:i + 1023]
                tabs.append(self.page(struct.pack("<i", len(part)) + struct.pack("<%dI" % len(part), *part)))
            r = OSIG + struct.pack("<I3I", len(data), *version) + struct.pack("<%dI" % len(tabs), *tabs)
        else:
            cap = ps // 4 - 6
            lvl = (1 if len(dp) > cap else 0) if level is None else level
            tabs = dp
            if lvl:
                k = ps // 4
                tabs = [self.page(struct.pack("<%dI" % len(dp[i:i + k]), *dp[i:i + k])) for i in range(0, len(dp), k)]
            r = b"\x1c\xfd" + struct.pack("<h3IQ", lvl, *version, len(data)) + struct.pack("<%dI" % len(tabs), *tabs)
        self.pages[root] = r.ljust(ps, b"\0")
        return root

    def store_virtual(self, length, parts, filler, root=None):
        """An object of the given length most of whose pages are one and the same page; parts: page number -> contents.
        Allocation tables without parts are shared, so an object of many GB takes a few pages."""
        ps = self.ps
        root = self.alloc(1)[0] if root is None else root
        n = (length + ps - 1) // ps
        k = ps // 4 if self.new else 1023
        own = {i: self.page(b) for i, b in parts.items()}
        self.own = own                      # page of the object -> page of the file
        tabs, plain = [], {}
        for base in range(0, n, k):
            m = min(k, n - base)
            mine = [i for i in own if base <= i < base + m]
            key = m if not mine else None
            if key in plain:
                tabs.append(plain[key])
                continue
            lst = [filler] * m
            for i in mine:
                lst[i - base] = own[i]
            t = self.page((b"" if self.new else struct.pack("<i", m)) + struct.pack("<%dI" % m, *lst))
            if key:
                plain[key] = t
            tabs.append(t)
        h = struct.pack("<%dI" % len(tabs), *tabs)
        self.pages[root] = ((b"\x1c\xfd" + struct.pack("<h3IQ", 1, 1, 2, 3, length) if self.new else OSIG + struct.pack("<I3I", length, 1, 2, 3)) + h).ljust(ps, b"\0")
        assert len(self.pages[root]) == ps
        return root

    def obj(self, data, **kw):
        return self.store(self.alloc(1)[0], data, **kw)

    # ------------------------------------------------ indexes
    def index_file(self, t):
        """The index file of a table: page 0 lists the trees; each tree has a head page and its pages."""
        if t.raw_index is not None:
            return t.raw_index
        ps, unit = self.ps, (1 if self.new else self.ps)
        pages = [b""]
        starts = []
        for k in range(len(t.indexes)):
            keys = t.keys[k] if t.keys else [(struct.pack(">I", i), i) for i, r in enumerate(t.records) if r[0] == 0]
            length = t.index_opts.get("length") or (len(keys[0][0]) if keys else 4)
            starts.append(len(pages))
            pages.append(b"")
            root = self.tree(pages, keys, length, unit, t.index_opts)
            pages[starts[-1]] = struct.pack("<Ih", root * unit, length)
        pages[0] = struct.pack("<I", 0) + b"".join(struct.pack("<I", s * unit) for s in starts)
        return b"".join(p.ljust(ps, b"\0") for p in pages)

    def tree(self, pages, keys, length, unit, opts):
        """Builds one tree over the pages list, returns the number of its root page."""
        ps = self.ps
        per_leaf = opts.get("leaf")          # at most that many keys on a leaf
        fan = opts.get("fan") or max(2, (ps - 12) // (length + 8))
        groups, rest = [], list(keys)
        if not rest:
            groups = [[]]
        while rest:
            n = len(rest) if per_leaf is None else per_leaf
            while True:
                b = leaf_page(rest[:n], length, ps, 0, 0xffffffff, 0xffffffff, opts)
                if b is not None:
                    break
                n = n // 2 if n > 64 else n - 1
            groups.append(rest[:n])
            rest = rest[n:]
        order = opts.get("order") or (lambda n: list(range(n)))
        perm = order(len(groups))
        base = len(pages)
        nums = [base + i for i in perm]
        pages += [b""] * len(groups)
        level = []
        single = len(groups) == 1
        for i, g in enumerate(groups):
            prv = nums[i - 1] * unit if i else 0xffffffff
            nxt = nums[i + 1] * unit if i + 1 < len(nums) else 0xffffffff
            pages[nums[i]] = leaf_page(g, length, ps, 1 if single else 0, prv, nxt, opts)
            level.append((g[-1] if g else (bytes(length), 0), nums[i]))
        while len(level) > 1:
            parts = [level[i:i + fan] for i in range(0, len(level), fan)]
            base = len(pages)
            pages += [b""] * len(parts)
            up = []
            for i, part in enumerate(parts):
                prv = (base + i - 1) * unit if i else 0xffffffff
                nxt = (base + i + 1) * unit if i + 1 < len(parts) else 0xffffffff
                b = struct.pack("<HHII", 1 if len(parts) == 1 else 0, len(part), prv, nxt)
                for (key, rec), num in part:
                    b += key + struct.pack(">I", rec) + struct.pack(">I", num * unit)
                assert len(b) <= ps
                pages[base + i] = b
                up.append((part[-1][0], base + i))
            level = up
        return level[0][1]

    # ------------------------------------------------ the file
    def bytes(self):
        self.finish()
        return b"".join(self.pages)

    def finish(self):
        ps = self.ps
        root_blob = Blob() if self.new else None
        if self.new:
            root_blob.blocks.append(None)   # block 1 starts the root record
        tb = []
        for t in self.tables:
            if getattr(t, "files", None) is None:
                d = self.obj(b"".join(t.records))
                b = self.obj(t.blob.bytes()) if t.blob else 0
                i = self.obj(self.index_file(t)) if (t.indexes or t.raw_index is not None) else 0
                t.files = (d, b, i)
            text = t.text if t.text is not None else t.descr(t.files)
            if self.new:
                n = root_blob.add(text.encode("utf-8"))
            else:
                n = self.obj(utf16(text))
            t.block = n
            tb.append(n)
        tb += self.extra_root
        lang = self.lang.encode()
        if self.new:
            rec = lang.ljust(32, b"\0") + struct.pack("<i", len(tb)) + struct.pack("<%dI" % len(tb), *tb)
            pieces = [rec[i:i + 250] for i in range(0, len(rec), 250)]
            base = len(root_blob.blocks)
            nums = [1] + [base + i for i in range(len(pieces) - 1)]
            root_blob.blocks += [None] * (len(pieces) - 1)
            for i, p in enumerate(pieces):
                nx = nums[i + 1] if i + 1 < len(nums) else 0
                root_blob.blocks[nums[i]] = struct.pack("<IH", nx, len(p)) + p + bytes(250 - len(p))
            rootdata = root_blob.bytes()
        else:
            w = 8 if self.version in ("8.0.3.0", "8.0.5.0") else 32
            rootdata = lang.ljust(w, b"\0") + struct.pack("<i", len(tb)) + struct.pack("<%dI" % len(tb), *tb)
        self.store(2, rootdata)
        if self.new:
            self.pages[1] = (b"\x1c\xff" + struct.pack("<hI", 0, 0)).ljust(ps, b"\0")
        else:
            tabs = []
            if self.free or self.free_tab:
                tabs = list(self.free_tab)
                need = max(1, (len(self.free) + 1023) // 1024) if self.free else 0
                while len(tabs) < need:
                    tabs.append(self.page())
                for i in range(0, len(self.free), 1024):
                    part = self.free[i:i + 1024]
                    self.pages[tabs[i // 1024]] = struct.pack("<%dI" % len(part), *part).ljust(ps, b"\0")
            self.pages[1] = (OSIG + struct.pack("<I3I", len(self.free), 1, 0, 0) +
                             struct.pack("<%dI" % len(tabs), *tabs)).ljust(ps, b"\0")
        v = bytes(int(x) for x in self.version.split("."))
        self.pages[0] = (SIG + v + struct.pack("<IiI", len(self.pages), 0, ps if self.new else 0)).ljust(ps, b"\0")

    def write_sparse(self, path):
        """Writes the file with holes where pages were skipped (self.pages is a SparsePages)."""
        self.finish()
        with open(path, "wb") as f:
            f.truncate(len(self.pages) * self.ps)
            for i, b in self.pages.at.items():
                if b is not None and b.strip(b"\0"):
                    f.seek(i * self.ps)
                    f.write(b)

    def write(self, path):
        b = self.bytes()
        with open(path, "wb") as f:
            f.write(b)
        return b


def bits(n):
    return max(1, n.bit_length())


def leaf_page(keys, length, ps, root, prv, nxt, opts=None):
    """A leaf page, or None if the keys do not fit."""
    opts = opts or {}
    lefts, rights, prev = [], [], None
    for k, _ in keys:
        right = 0
        while right < length and k[length - 1 - right] == 0:
            right += 1
        left = 0
        if prev is not None:
            while left < length - right and k[left] == prev[left]:
                left += 1
        lefts.append(left)
        rights.append(right)
        prev = k
    nb = max(bits(max([r for _, r in keys] or [0])), opts.get("numrecbits", 0))
    lb = max(bits(length), opts.get("leftbits", 0))
    rb = max(bits(length), opts.get("rightbits", 0))
    rec = max((nb + lb + rb + 7) // 8, opts.get("recbytes", 0))
    if rec > 8:
        return None
    body = ps - 30
    heads, tails = b"", b""
    for (k, r), l, g in zip(keys, lefts, rights):
        heads += ((r | (l << nb) | (g << (nb + lb))).to_bytes(rec, "little"))
        tails = k[l:length - g] + tails
    if len(heads) + len(tails) > body:
        return None
    h = struct.pack("<HHIIHIHHHHHH", 2 | root, len(keys), prv, nxt, body - len(heads) - len(tails),
                    (1 << nb) - 1, (1 << lb) - 1, (1 << rb) - 1, nb, lb, rb, rec)
    return (h + heads).ljust(ps - len(tails), b"\0") + tails


# ==================================================================== reader
class Bad(Exception):
    pass


class Image:
    """An independent reading of a database file."""
    def __init__(self, data):
        self.b = data
        if data[:8] != SIG:
            raise Bad("signature")
        self.version = ".".join(str(x) for x in data[8:12])
        self.length, = struct.unpack_from("<I", data, 12)
        self.new = self.version == "8.3.8.0"
        self.ps = struct.unpack_from("<I", data, 20)[0] if self.new else 4096
        self.npages = len(data) / self.ps

    def pg(self, n):
        if (n + 1) * self.ps > len(self.b):
            raise Bad("page %d is outside the file" % n)
        return self.b[n * self.ps:(n + 1) * self.ps]

    def free_list(self):
        """(table pages, free pages)"""
        p = self.pg(1)
        if self.new:
            if p[:2] != b"\x1c\xff":
                raise Bad("free list signature")
            return [], []
        if p[:8] != OSIG:
            raise Bad("free list signature")
        n, = struct.unpack_from("<I", p, 8)
        tabs = []
        for x in struct.unpack_from("<1018I", p, 24):
            if not x:
                break
            tabs.append(x)
        free = []
        for i in range(n):
            if i // 1024 >= len(tabs):
                raise Bad("the free list has no table page for %d free pages" % n)
            free.append(struct.unpack_from("<I", self.pg(tabs[i // 1024]), 4 * (i % 1024))[0])
        return tabs, free

    def obj(self, root):
        """dict(len, tabs, data pages) of the object with that root page"""
        p = self.pg(root)
        if not self.new:
            if p[:8] != OSIG:
                raise Bad("page %d is not an object" % root)
            n, = struct.unpack_from("<I", p, 8)
            nd = (n + 4095) // 4096
            nt = (nd + 1022) // 1023
            tabs = list(struct.unpack_from("<%dI" % nt, p, 24))
            data = []
            for i, t in enumerate(tabs):
                q = self.pg(t)
                k, = struct.unpack_from("<i", q, 0)
                want = min(1023, nd - i * 1023)
                if k != want:
                    raise Bad("table page %d of object %d lists %d pages instead of %d" % (t, root, k, want))
                data += struct.unpack_from("<%dI" % k, q, 4)
        else:
            if p[:2] != b"\x1c\xfd":
                raise Bad("page %d is not an object" % root)
            lvl, = struct.unpack_from("<h", p, 2)
            n, = struct.unpack_from("<Q", p, 16)
            nd = (n + self.ps - 1) // self.ps
            per = self.ps // 4
            if lvl == 0:
                if nd > per - 6:
                    raise Bad("object %d is too long for a one-level table" % root)
                tabs, data = [], list(struct.unpack_from("<%dI" % nd, p, 24))
            else:
                nt = (nd + per - 1) // per
                tabs = list(struct.unpack_from("<%dI" % nt, p, 24))
                data = []
                for i, t in enumerate(tabs):
                    k = min(per, nd - i * per)
                    data += struct.unpack_from("<%dI" % k, self.pg(t), 0)
        return dict(root=root, len=n, tabs=tabs, data=data)

    def read(self, root):
        o = self.obj(root)
        return b"".join(self.pg(x) for x in o["data"])[:o["len"]]

    def chain(self, raw, block):
        out = b""
        while block:
            n, k = struct.unpack_from("<IH", raw, block * 256)
            out += raw[block * 256 + 6:block * 256 + 6 + k]
            block = n
        return out

    def tables(self):
        """table name -> (description object or 0, description, [data, blob, index])"""
        raw = self.read(2)
        rec = self.chain(raw, 1) if self.new else raw
        w = 8 if self.version in ("8.0.3.0", "8.0.5.0") else 32
        n, = struct.unpack_from("<i", rec, w)
        out = {}
        for b in struct.unpack_from("<%dI" % n, rec, w + 4):
            text = self.chain(raw, b).decode("utf-8") if self.new else self.read(b).decode("utf-16-le")
            name = re.match(r'\s*\{\s*"([^"]*)"', text).group(1)
            files = [int(x) for x in re.search(r'\{"Files",(\d+),(\d+),(\d+)\}', text).groups()]
            if name in out:
                raise Bad("two tables are named " + name)
            out[name] = (0 if self.new else b, text, files)
        return out
