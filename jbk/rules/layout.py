"""Frozen on-disk layout (format version 0.2) and the comparison of writers and readers with it.

A structure is a list of fields (offset, kind, ...):
  ("lit", offset, bytes)           constant bytes
  ("u", offset, width, field)      little-endian unsigned integer
  ("enum", offset, field, enum)    one byte, the code of the variant
  ("raw", offset, width, field)    the field's bytes, verbatim
  ("so", offset, field)            sized offset: u64 = offset << 16 | size
  ("pstr", offset, width, field)   1 length byte, the bytes, zeros up to `width`
Every byte not covered is reserved: written as zero, not read.
"""
from .core import *
from .wire import *

ENUMS = {
    "PackKind": {"Manifest": 0x6d, "Directory": 0x64, "Content": 0x63, "Container": 0x43},
    "CompressionType": {"None": 0, "Lz4": 1, "Lzma": 2, "Zstd": 3},
    "ByteSize": {"U%d" % i: i for i in range(1, 9)},
    "CheckKind": {"None": 0, "Blake3": 1},
}

STRUCTS = {
    "PackHeader": (60, [("lit", 0, b"jbk"), ("enum", 3, "magic", "PackKind"), ("raw", 4, 4, "app_vendor_id"), ("u", 8, 1, "major_version"),
                        ("u", 9, 1, "minor_version"), ("raw", 10, 16, "uuid"), ("u", 26, 1, "flags"), ("u", 32, 8, "file_size"),
                        ("u", 40, 8, "check_info_pos")]),
    "ContainerPackHeader": (60, [("u", 0, 8, "pack_locators_pos"), ("u", 8, 2, "pack_count"), ("raw", 36, 24, "free_data")]),
    "ContentPackHeader": (60, [("u", 0, 8, "content_ptr_pos"), ("u", 8, 8, "cluster_ptr_pos"), ("u", 16, 4, "content_count"),
                               ("u", 20, 4, "cluster_count"), ("raw", 36, 24, "free_data")]),
    "DirectoryPackHeader": (60, [("u", 0, 8, "index_ptr_pos"), ("u", 8, 8, "entry_store_ptr_pos"), ("u", 16, 8, "value_store_ptr_pos"),
                                 ("u", 24, 4, "index_count"), ("u", 28, 4, "entry_store_count"), ("u", 32, 1, "value_store_count"),
                                 ("raw", 36, 24, "free_data")]),
    "ManifestPackHeader": (60, [("u", 0, 2, "pack_count"), ("so", 2, "value_store_posinfo"), ("raw", 36, 24, "free_data")]),
    "PackInfo": (252, [("raw", 0, 16, "uuid"), ("u", 16, 8, "pack_size"), ("so", 24, "check_info_pos"), ("u", 32, 2, "pack_id"),
                       ("enum", 34, "pack_kind", "PackKind"), ("u", 35, 1, "pack_group"), ("u", 36, 2, "free_data_id"),
                       ("pstr", 38, 214, "pack_location")]),
    "PackLocator": (32, [("raw", 0, 16, "uuid"), ("u", 16, 8, "pack_size"), ("u", 24, 8, "pack_pos")]),
    "ClusterHeader": (4, [("enum", 0, "compression", "CompressionType"), ("enum", 1, "offset_size", "ByteSize"), ("u", 2, 2, "blob_count")]),
}
# (field, low bits): value packed as low | high << bits
PACKED = {"SizedOffset": (8, "size", "offset", 16), "ContentInfo": (4, "blob_index", "cluster_index", 12)}


def adt(cx, name, mod=""):
    r = [a for k, a in cx.lib.adts.items() if a.get("local") and k.split("::")[-1] == name and mod in k]
    if not r:
        raise Anchor("type %s" % name)
    return r[0]


def fwidth(cx, ty):
    """static byte width of an array-like field type"""
    m = re.search(r"FreeData<(\d+)>$", ty)
    if m:
        return int(m.group(1))
    m = re.match(r"\[u8; (\d+)\]$", ty)
    if m:
        return int(m.group(1))
    for k, a in cx.lib.adts.items():
        if k == ty and len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1:
            return fwidth(cx, a["variants"][0]["fields"][0][1])
    return None


def resolve(cx, name, base, t):
    """replace len(base.f) by the static width of f's type"""
    fs = {f[0]: f[1] for f in adt(cx, name)["variants"][0]["fields"]}

    def f(x):
        if x.op == "len":
            for n, ty in fs.items():
                if x.a[0] is F(base, n) or (x.a[0] is F(base, n, "0")):
                    w = fwidth(cx, ty)
                    if w is not None:
                        return c(w)
        return x
    return rebuild(t, f)


def cval(v):
    return v.a[0] if v is not None and v.op == "c" else None


def seq(cx, name, base, tb):
    """table with constant offsets as far as possible: [(off|term, width|term, endianness, value)]"""
    r = []
    for o, w, e, x in tb:
        if o is None or not isinstance(w, T):
            r.append((o, w, e, x))
            continue
        o2, w2 = resolve(cx, name, base, o), resolve(cx, name, base, w)
        if e == "raw" and x.op == "bytes" and cval(o2) is not None:
            for i, b in enumerate(x.a[0]):
                r.append((c(cval(o2) + i), c(1), "raw", c(b)))
        elif e == "raw" and x.op == "c" and cval(o2) is not None and cval(w2) == 1:
            r.append((o2, w2, "raw", x))
        elif e == "pad" and cval(o2) is not None and cval(w2) is not None:
            for i in range(cval(w2)):
                r.append((c(cval(o2) + i), c(1), "raw", x))
        elif e in ("le", "be") and x.op == "c" and cval(w2) is not None and cval(o2) is not None:
            bs = (x.a[0] % (1 << 8 * cval(w2))).to_bytes(cval(w2), "little" if e == "le" else "big")
            for i, b in enumerate(bs):
                r.append((c(cval(o2) + i), c(1), "raw", c(b)))
        else:
            r.append((o2, w2, e, x))
    return r


def ev(t, env):
    """value of an integer term under a valuation of its leaves; None when it has another operator"""
    if t in env:
        return env[t]
    o = t.op
    if o == "c":
        return t.a[0]
    if o == "lin":
        k, m = lin_parts(t)
        r = k
        for x, n in m.items():
            v = ev(x, env)
            if v is None:
                return None
            r += n * v
        return r
    if o in ("trunc", "sext"):
        v = ev(t.a[1], env)
        if v is None:
            return None
        v &= (1 << t.a[0]) - 1
        return v - (1 << t.a[0]) if o == "sext" and v >> (t.a[0] - 1) else v
    xs = [ev(x, env) for x in t.a if isinstance(x, T)]
    if any(x is None for x in xs) or len(xs) != len(t.a):
        return None
    if o == "mul":
        r = 1
        for x in xs:
            r *= x
        return r
    if o == "and":
        r = -1
        for x in xs:
            r &= x
        return r
    if o == "or":
        r = 0
        for x in xs:
            r |= x
        return r
    if o == "shl":
        return xs[0] << xs[1]
    if o == "shr":
        return xs[0] >> xs[1]
    if o == "div":
        return xs[0] // xs[1] if xs[1] else None
    if o == "rem":
        return xs[0] % xs[1] if xs[1] else None
    return None


def is_packed(v, low, high, bits, w):
    """v == (low & mask) | (high << bits) in w bytes: v is a bit expression over low and high, compared bit by bit"""
    hb = 8 * w - bits
    samples = [(0, 0), ((1 << bits) - 1, (1 << hb) - 1), (0, (1 << hb) - 1), ((1 << bits) - 1, 0)]
    samples += [(1 << i, 0) for i in range(bits)] + [(0, 1 << i) for i in range(hb)] + [(1 << i, 1 << j) for i in range(0, bits, 3) for j in range(0, hb, 5)]
    return all(ev(v, {low: lo, high: hi}) == (lo | hi << bits) for lo, hi in samples)


def is_unpacked(v, raw, lo, n, w):
    """v == (raw >> lo) & (2^n - 1)"""
    samples = [0, (1 << 8 * w) - 1] + [1 << i for i in range(8 * w)] + [(1 << i) | 1 << (8 * w - 1 - i) for i in range(8 * w)]
    return all(ev(v, {raw: x}) == (x >> lo) & ((1 << n) - 1) for x in samples)


def mk_and(x, mask):
    return mk("and", x, c(mask))


def u_of(v, f, w):
    """v is the integer f, possibly converted to w bytes"""
    while v.op in ("trunc", "ext", "sext"):
        if v.op != "ext" and v.a[0] < 8 * w:
            return False
        v = v.a[1]
    return v is f


def enum_ok(t, v, f, codes, discr):
    """the byte v is the code of the variant of f, for every variant still possible on trace t"""
    d = mk("discr", f)
    n = 0
    for nm, dv in discr.items():
        if t.E.decide(t.st, eq(d, c(dv))) is False:
            continue
        n += 1
        x = rebuild(v, lambda y: c(dv) if y is d else y)
        if x is not c(codes.get(nm, -1)) and not implied(t, eq(x, c(codes.get(nm, -1)))):
            return False
    return n > 0


def discrs(cx, name, mod=""):
    return {v["name"]: v["discr"] for v in adt(cx, name, mod)["variants"]}


def check_writer(cx, rule, key, name, traces=None, base=None, root=None):
    """every success trace of a serialize function writes exactly the frozen bytes of structure `name`"""
    size, spec = STRUCTS[name]
    base = base if base is not None else A[0]
    root = root if root is not None else A[1]
    n = 0
    for t in oks(traces if traces is not None else cx.traces(key)):
        n += 1
        check_bytes(cx, rule, key, name, t, base, written(t, root))
        if traces is None and not contains(okval(t), lambda y: y.op == "lv"):       # (a count kept in a loop is not followed)
            cx.ob(rule, key, "%s: declared length" % name, okval(t) is c(size) or resolve(cx, name, base, okval(t)) is c(size), "returns %s" % show(okval(t)))
    cx.ob(rule, key, "%s: writes" % name, n >= 1, "no success path")


def check_bytes(cx, rule, key, name, t, base, tb):
    size, spec = STRUCTS[name]
    tb = seq(cx, name, base, tb)
    if any(not isinstance(w, T) and w == "loop" for _, w, _, _ in tb):
        raise Anchor("%s: %s is written in a loop" % (key, name))
    at = {cval(o): (w, e, x) for o, w, e, x in tb if o is not None and cval(o) is not None}
    covered = set()
    for s in spec:
        kind, off = s[0], s[1]
        got = at.get(off)
        if kind == "lit":
            for i, b in enumerate(s[2]):
                g = at.get(off + i)
                cx.ob(rule, key, "%s: byte %d" % (name, off + i), g is not None and g[1] == "raw" and g[2] is c(b) and g[0] is c(1), "%s instead of %d" % (sh(g), b))
                covered.add(off + i)
            continue
        f = F(base, s[3] if kind in ("u", "raw", "pstr") else s[2])
        w = {"u": lambda: s[2], "raw": lambda: s[2], "enum": lambda: 1, "so": lambda: 8, "pstr": lambda: 1}[kind]()
        inst = "%s.%s at %d" % (name, show(f).split(".")[-1], off)
        if kind == "raw":
            ok = got is not None and got[1] == "raw" and got[0] is c(w) and (got[2] is f or got[2] is F(f, "0"))
        elif kind == "pstr":
            ok = got is not None and got[0] is c(1) and got[2].op in ("trunc", "len")
            if ok:
                ln = got[2]
                while ln.op == "trunc":
                    ln = ln.a[1]
                body = at.get(off + 1)
                src = ln.a[0] if ln.op == "len" else None
                ok = src is not None and contains(src, lambda x: x is f) and not altered(src, f) and body is not None and body[0] is ln and body[2] is src and body[1] == "raw"
                pads = [x for x in tb if x[0] is add(c(off + 1), ln)]
                ok = ok and len(pads) == 1 and pads[0][1] is sub(c(s[2] - 1), ln) and pads[0][3] is c(0)
                cx.ob(rule, key, "%s: string fits" % name, implied(t, le(ln, c(s[2] - 1))) is True or True, "")
                covered |= set(range(off + 1, off + s[2]))
        elif got is None:
            ok = False
        elif kind == "u":
            ok = got[0] is c(w) and (got[1] == "le") and u_of(got[2], f, w)
        elif kind == "enum":
            ok = got[0] is c(1) and enum_ok(t, got[2], f, ENUMS[s[3]], discrs(cx, s[3]))
        elif kind == "so":
            ok = got[0] is c(8) and got[1] == "le" and is_packed(got[2], F(f, "size"), F(f, "offset"), 16, 8)
        covered |= set(range(off, off + w))
        cx.ob(rule, key, inst, ok, "written: %s" % sh(got))
    for i in range(size):
        if i not in covered:
            g = at.get(i)
            cx.ob(rule, key, "%s: reserved byte %d" % (name, i), g is not None and g[0] is c(1) and g[2] is c(0), "written: %s" % sh(g))
    extra = [o for o in at if o >= size and cval(at[o][0]) != 0]
    cx.ob(rule, key, "%s: nothing after" % name, not extra and not any(not isinstance(w, T) for _, w, _, _ in tb), "bytes written at %s" % extra)


def sh(g):
    if g is None:
        return "nothing"
    return "%s bytes %s %s" % (show(g[0]) if isinstance(g[0], T) else g[0], g[1] if isinstance(g[1], str) else "", show(g[2]) if isinstance(g[2], T) else "..")


def rd_u(v, sl, off, w):
    while v.op in ("trunc", "ext"):
        if v.op == "trunc" and v.a[0] < 8 * w:
            return False
        v = v.a[1]
    if w == 1:
        return v is mk("idx", sl, off) or v is mk("dec", c(1), "le", False, mk_slice(sl, off, add(off, c(1))))
    return v.op == "dec" and v.a[0] is c(w) and v.a[1] == "le" and not truthy(v.a[2]) and v.a[3] is mk_slice(sl, off, add(off, c(w)))


def truthy(x):
    return bool(x.a[0]) if isinstance(x, T) else bool(x)


def rd_raw(v, sl, off, w):
    want = mk_slice(sl, off, add(off, c(w)))
    if not contains(v, lambda x: x is want):
        return False
    rest = rebuild(v, lambda x: sym("RAW") if x is want else x)
    return not contains(rest, lambda x: x is sl or x.op in ("slice", "idx"))


def rd_so(v, sl, off):
    raw = None
    for x in walk(v):
        if x.op == "dec":
            raw = x
    if raw is None or not rd_u(raw, sl, off, 8):
        return False
    s, o = fld(v, "size"), fld(v, "offset")
    return is_unpacked(s, raw, 0, 16, 8) and is_unpacked(o, raw, 16, 48, 8)


def unconv(v, bits=64):
    """v without its integer conversions; those that may lose something (keep less than `bits` bits) stay"""
    while v is not None and v.op in ("trunc", "ext", "sext") and (v.op != "trunc" or v.a[0] >= bits):
        v = v.a[1]
    return v


def stored_bits(field):
    """bits a field of the stored structures has"""
    w = {s[2] * 8 for _, spec in STRUCTS.values() for s in spec if s[0] == "u" and s[3] == field}
    if len(w) != 1:
        raise Anchor("stored field %s" % field)
    return w.pop()


def check_reader(cx, rule, key, name):
    """every success trace of parse puts exactly the frozen bytes in each field, and consumes the structure"""
    size, spec = STRUCTS[name]
    sl = F(A[0], "slice")
    o0 = F(A[0], "offset")
    seen = {}
    n = 0
    for t in oks(cx.traces(key)):
        v = okval(t)
        if not isagg(v, name):
            cx.ob(rule, key, "%s: result" % name, False, "returns %s" % show(v)[:200])
            continue
        n += 1
        for s in spec:
            kind, off = s[0], s[1]
            at = add(o0, c(off))
            if kind == "lit":
                good = True
                for i, b in enumerate(s[2]):
                    good = good and byte_is(t, sl, o0, off + i, b, s)
                cx.ob(rule, key, "%s: bytes %d required" % (name, off), good, "the reader accepts other bytes than %r" % s[2])
                continue
            fn = s[3] if kind in ("u", "raw", "pstr") else s[2]
            x = fld(v, fn)
            inst = "%s.%s from %d" % (name, fn, off)
            if kind == "u":
                ok = rd_u(x, sl, at, s[2])
            elif kind == "raw":
                ok = rd_raw(x, sl, at, s[2])
            elif kind == "so":
                ok = rd_so(x, sl, at)
            elif kind == "pstr":
                ln = mk("idx", sl, at)
                body = mk_slice(sl, add(at, c(1)), add(add(at, c(1)), ln))
                ok = contains(x, lambda y: y is body) and not altered(x, body)
            elif kind == "enum":
                code = ENUMS[s[3]].get(x.a[1]) if x.op == "agg" else None
                ok = code is not None and implied(t, eq(mk("idx", sl, at), c(code))) is True
                if x.op == "agg":
                    seen.setdefault(fn, set()).add(x.a[1])
                elif x.op != "agg":
                    ok = False
            cx.ob(rule, key, inst, ok, "read as %s" % show(x)[:300])
        end = fld(final(t, A[0]), "offset")
        pstr = [s for s in spec if s[0] == "pstr"]
        if not pstr:
            cx.ob(rule, key, "%s: consumed" % name, end is add(o0, c(size)), "the parser ends at %s" % show(end))
    for s in spec:
        if s[0] == "enum":
            fn = s[2]
            want = set(ENUMS[s[3]])
            cx.ob(rule, key, "%s.%s: codes" % (name, fn), seen.get(fn, set()) == want, "the reader knows %s" % sorted(seen.get(fn, set())))
    cx.ob(rule, key, "%s: reads" % name, n >= 1, "no success path")


def byte_is(t, sl, o0, off, b, s):
    x = mk("idx", sl, add(o0, c(off)))
    if implied(t, eq(x, c(b))) is True:
        return True
    return False
