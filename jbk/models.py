"""Models of external functions (std and a few crates) for the abstract interpreter."""
import re
from .term import *
from .engine import (Eff, callee_name, mk_len, mk_slice, DEREF_LIKE, upd_any)

ITER = "it"


def prefer_model(name, f):
    # std bodies that are dumped (Option/Result/convert) are inlined, except these
    return name.endswith("Clone::clone") or name in (
        "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")


def ret(st, v):
    return [("ret", st, v, None)]


def snd(E, st, v):
    return E.deref_full(st, v)


MODELS = []


def model(pat):
    rx = re.compile(pat)

    def deco(fn):
        MODELS.append((rx, fn))
        return fn

    return deco


def apply(E, st, name, f, args, ctx):
    rd = f.get("rdef", "") or ""
    for rx, fn in MODELS:
        if rx.search(name) or (rd and rx.search(rd)):
            r = fn(E, st, name, args, ctx)
            if r is not None:
                return r
    return None


def as_ref(v, st, E):
    return v


# ---- logging, formatting ------------------------------------------------------
@model(r"^log::|__private_api|^core::fmt::|^alloc::fmt::format$|^core::panicking::assert_failed|Debug::fmt$|Display::fmt$")
def m_log(E, st, name, args, ctx):
    if E.ty(ctx["dty"])["k"] == "never":
        return [("panic", st, None, name)]
    if name == "log::max_level":
        return ret(st, mk("sym", "loglevel"))
    return ret(st, mk("fmt"))


@model(r"PartialOrd::le$|PartialOrd::lt$|PartialOrd::ge$|PartialOrd::gt$")
def m_ord(E, st, name, args, ctx):
    a, b = (E.resolve(st, E.deref_full(st, x)) for x in args)
    ga = [E.ty(x)["s"] for x in ctx["f"].get("ga", [])]
    if any("log::Level" in x for x in ga):
        return ret(st, FALSE)
    op = name.rsplit("::", 1)[1]
    r = {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[op]()
    return ret(st, r)


@model(r"^core::ops::(arith|bit)::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)::\w+$")
def m_arith(E, st, name, args, ctx):
    at = ctx.get("at") or [None, None]
    if len(args) != 2 or any(x is None for x in at):
        return None
    ts = []
    for x in at:
        t = E.ty(x)
        while t["k"] == "ref":
            x = t["e"]
            t = E.ty(x)
        if t["k"] not in ("int", "uint"):
            return None
        ts.append(x)
    a, b = (E.resolve(st, E.deref_full(st, x)) for x in args)
    return ret(st, E.binop(name.split("::")[-2], a, b, ts[0]))


def int_like(E, tid):
    t = E.ty(tid)
    n = 0
    while t["k"] in ("ref",) and n < 4:
        t = E.ty(t["e"])
        n += 1
    return t["k"] in ("int", "uint", "bool", "char") or (t["k"] == "adt" and t["d"] in E.newtypes)


@model(r"PartialEq::eq$|PartialEq::ne$|PartialEq<&B> for &A>::(eq|ne)$")
def m_eq(E, st, name, args, ctx):
    a, b = (E.resolve(st, E.deref_full(st, x)) for x in args)
    at = ctx.get("at") or [None]
    # comparison of enum values of local derive: by discriminant when unit-only
    if at[0] is not None and int_like(E, at[0]):
        r = eq(a, b)
    else:
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] is not None and a.a[1] != b.a[1]:
            r = FALSE
        elif (a.op == "agg" or b.op == "agg") and _unit_enum(E, a, b):
            r = eq(E.discr(st, a, None), E.discr(st, b, None))
        else:
            r = gen_eq(a, b)
    if name.endswith("ne"):
        r = not_(r)
    return ret(st, r)


def _unit_enum(E, a, b):
    x = a if a.op == "agg" else b
    ad = E.c.adts.get(x.a[0])
    return bool(ad and ad["kind"] == "enum" and all(not v["fields"] for v in ad["variants"]))


@model(r"Ord::cmp$|cmp::PartialOrd::partial_cmp$")
def m_cmp(E, st, name, args, ctx):
    a, b = (E.resolve(st, E.deref_full(st, x)) for x in args)
    at = ctx.get("at") or [None]
    r = mk("cmp", a, b)
    if name.endswith("partial_cmp"):
        return ret(st, some(r))
    return ret(st, r)


ORD = "core::cmp::Ordering"
ORDS = {-1: "Less", 0: "Equal", 1: "Greater"}


def ord_split(E, st, v):
    """[(st, -1 | 0 | 1)]: what the ordering v may be"""
    v = E.resolve(st, E.deref_full(st, v))
    if v.op == "agg" and v.a[0] == ORD:
        return [(st, {x: n for n, x in ORDS.items()}[v.a[1]])]
    r = []
    for n in ORDS:
        s = st.fork()
        if v.op == "cmp":
            good = E.assume_cmp(s, v.a[0], v.a[1], n)
        else:
            good = E.assume(s, eq(mk("discr", v), c(n % 256)), True)
        if good:
            r.append((s, n))
    return r


@model(r"cmp::Ordering::(is_eq|is_ne|is_lt|is_le|is_gt|is_ge)$")
def m_ord_is(E, st, name, args, ctx):
    want = {"is_eq": (0,), "is_ne": (-1, 1), "is_lt": (-1,), "is_le": (-1, 0), "is_gt": (1,), "is_ge": (0, 1)}[name.rsplit("::", 1)[1]]
    return [("ret", s, TRUE if n in want else FALSE, None) for s, n in ord_split(E, st, args[0])]


@model(r"cmp::Ordering::(reverse|then|then_with)$")
def m_ord_then(E, st, name, args, ctx):
    op = name.rsplit("::", 1)[1]
    v = E.resolve(st, E.deref_full(st, args[0]))
    if op == "reverse":
        if v.op == "cmp":
            return ret(st, mk("cmp", v.a[1], v.a[0]))
        return [("ret", s, agg(ORD, ORDS[-n], (), ()), None) for s, n in ord_split(E, st, v)]
    r = []
    for s, n in ord_split(E, st, v):
        if n != 0:
            r.append(("ret", s, agg(ORD, ORDS[n], (), ()), None))
        elif op == "then":
            r.append(("ret", s, args[1], None))
        else:
            r += E.call_value(s, args[1], [], ctx)
    return r


@model(r"^core::iter::adapters::zip::zip$")
def m_zip(E, st, name, args, ctx):
    return ret(st, mk_iter("zip", a=to_iter(E, st, args[0]), b=to_iter(E, st, args[1])))


@model(r"^core::cmp::(min|max)$|Ord::(min|max)$")
def m_minmax(E, st, name, args, ctx):
    a, b = (E.resolve(st, E.deref_full(st, x)) for x in args)
    op = "min" if name.endswith("min") else "max"
    d = E.decide(st, lt(a, b))
    if d is None and a is b:
        return ret(st, a)
    if d is not None:
        lo, hi = (a, b) if d else (b, a)
        return ret(st, lo if op == "min" else hi)
    return ret(st, mk(op, *sorted((a, b), key=lambda t: t.id)))


# ---- transparent -------------------------------------------------------------------
# ---- byte encodings ---------------------------------------------------------------------
# enc(w, endianness, v): the w bytes of the integer v; encp(old, w, endianness, v): the buffer
# `old` whose first w bytes are enc(w,..); dec(w, endianness, signed, s): the integer the bytes
# s hold.  The endianness is le, be or ne (host order).
def endian(full):
    if "BigEndian" in full or "big_endian" in full or "NetworkEndian" in full:
        return "be"
    if "LittleEndian" in full or "little_endian" in full:
        return "le"
    return "ne"


def dec(w, e, signed, s):
    if w.op == "c" and w.a[0] == 1 and not signed:
        return mk_index(s, c(0))
    # an array made of consecutive bytes of something
    if s.op == "agg" and s.a[0] == "[]" and w.op == "c":
        xs = [x for _, x in agg_items(s)]
        if len(xs) == w.a[0] and xs and all(x.op == "idx" and x.a[0] is xs[0].a[0] and x.a[1] is add(xs[0].a[1], c(j)) for j, x in enumerate(xs)):
            s = mk_slice(xs[0].a[0], xs[0].a[1], add(xs[0].a[1], w))
    # decoding what was encoded
    if s.op == "enc" and s.a[0] is w and s.a[1] == e:
        return s.a[2]
    return mk("dec", w, e, signed, s)


def mk_index(s, i):
    return mk("idx", s.a[0], add(s.a[1], i)) if s.op == "slice" else mk("idx", s, i)


@model(r"zerocopy::byteorder::U\d+<O> as core::convert::From<u\d+>>::from$|zerocopy::byteorder::U\d+::<O>::new$")
def m_enc(E, st, name, args, ctx):
    full = ctx["f"].get("full", "")
    m = re.search(r"byteorder::U(\d+)", full)
    return ret(st, mk("enc", c(int(m.group(1)) // 8), endian(full), E.resolve(st, args[0])))


@model(r"num::<impl [ui]\d+>::to_([lbn])e_bytes$")
def m_tobytes(E, st, name, args, ctx):
    m = re.search(r"impl ([ui])(\d+)>::to_(\w)e_bytes", name)
    return ret(st, mk("enc", c(int(m.group(2)) // 8), m.group(3) + "e", E.resolve(st, args[0])))


@model(r"num::<impl [ui]\d+>::from_([lbn])e_bytes$")
def m_frombytes(E, st, name, args, ctx):
    m = re.search(r"impl ([ui])(\d+)>::from_(\w)e_bytes", name)
    return ret(st, dec(c(int(m.group(2)) // 8), m.group(3) + "e", m.group(1) == "i", E.resolve(st, E.deref_full(st, args[0]))))


@model(r"byteorder::ByteOrder::read_([ui]\d+|u?int)$")
def m_dec(E, st, name, args, ctx):
    e = endian(ctx["f"].get("full", ""))
    m = re.search(r"read_([ui])(\w+)$", name)
    w = c(int(m.group(2)) // 8) if m.group(2).isdigit() else E.resolve(st, args[1])
    s = E.resolve(st, E.deref_full(st, args[0]))
    return ret(st, dec(w, e, m.group(1) == "i", s))


@model(r"byteorder::ByteOrder::write_([ui]\d+|u?int)$")
def m_encto(E, st, name, args, ctx):
    e = endian(ctx["f"].get("full", ""))
    m = re.search(r"write_([ui])(\w+)$", name)
    w = c(int(m.group(2)) // 8) if m.group(2).isdigit() else E.resolve(st, args[2])
    root, path = E.deref_loc(st, args[0])
    old = E.resolve(st, E.read(st, root, path))
    v = mk("enc", w, e, E.resolve(st, args[1]))
    E.write(st, root, path, v if mk_len(old) is w else mk("encp", old, v))
    return ret(st, UNIT)


@model(DEREF_LIKE.pattern)
def m_deref(E, st, name, args, ctx):
    if not args:
        return None
    if name.endswith("AsBytes::as_bytes"):
        s = E.ty(ctx["f"]["ga"][0]) if ctx["f"].get("ga") else {"k": ""}
        b = E.int_bits(ctx["f"]["ga"][0]) if s["k"] in ("int", "uint") else None
        if b:
            return ret(st, mk("enc", c(b // 8), "ne" if b > 8 else "le", E.resolve(st, E.deref_full(st, args[0]))))
    if name.endswith("::as_bytes") and "uuid::" in name:
        return ret(st, mk("enc", c(16), "raw", E.resolve(st, E.deref_full(st, args[0]))))
    if name.endswith("::as_ptr"):
        return ret(st, E.resolve(st, E.deref_full(st, args[0])))        # (the owner may move; what is pointed to does not)
    if name.startswith(("core::ops::deref::Deref::", "core::convert::AsRef::")):
        v = E.resolve(st, E.deref_full(st, args[0]))
        if v.op == "agg" and v.a[0] == "alloc::borrow::Cow":
            return ret(st, fld(v, "0"))
    return ret(st, args[0])


@model(r"Clone::clone$|::cloned$|::copied$")
def m_clone(E, st, name, args, ctx):
    v = args[0]
    f = ctx["f"]
    if name.endswith("cloned") or name.endswith("copied"):
        return ret(st, v)
    st_ty = E.ty(f["ga"][0])["s"] if f.get("ga") else ""
    if v.op == "ref":
        v = E.read(st, v.a[0], v.a[1])
    return ret(st, v)


@model(r"^core::mem::replace$")
def m_replace(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    old = E.read(st, root, path)
    E.write(st, root, path, args[1])
    return ret(st, old)


@model(r"^core::mem::swap$")
def m_swap(E, st, name, args, ctx):
    r1, p1 = E.deref_loc(st, args[0])
    r2, p2 = E.deref_loc(st, args[1])
    a, b = E.read(st, r1, p1), E.read(st, r2, p2)
    E.write(st, r1, p1, b)
    E.write(st, r2, p2, a)
    return ret(st, UNIT)


@model(r"^core::mem::take$|Cell::<T>::take$")
def m_take(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    old = E.read(st, root, path)
    t = E.ty(ctx["dty"])
    new = NONE if t["k"] == "adt" and t["d"] == OPT else mk("default", t["s"])
    E.write(st, root, path, new)
    return ret(st, old)


@model(r"^core::mem::drop$|^core::mem::forget$")
def m_memdrop(E, st, name, args, ctx):
    if name.endswith("forget"):
        st.emit(Eff("forget", "", (E.resolve(st, args[0]),), None, ctx["fn"]["path"], ctx["span"], x=args[0]))
        return ret(st, UNIT)
    ty = E.ty(ctx["at"][0])["s"] if ctx.get("at") and ctx["at"][0] is not None else "?"
    if E.keep_drops or "Guard" in ty:
        st.emit(Eff("drop", ty, (E.resolve(st, args[0]),), None, ctx["fn"]["path"], ctx["span"], x=args[0]))
    return ret(st, UNIT)


@model(r"core::cell::Cell::<T>::(get|set|replace)$")
def m_cell(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    old = E.read(st, root, path)
    if name.endswith("::get"):
        return ret(st, old)
    E.write(st, root, path, args[1])
    return ret(st, UNIT if name.endswith("set") else old)


# ---- integer conversions ------------------------------------------------------------
@model(r"convert::(From::from|Into::into)$|convert::num::")
def m_from(E, st, name, args, ctx):
    dt, at = E.ty(ctx["dty"]), ctx["at"][0]
    if at is None:
        return None
    s = E.ty(at)
    if s["k"] in ("int", "uint", "bool", "char") and dt["k"] in ("int", "uint"):
        return ret(st, E.intcast(args[0], at, ctx["dty"]))
    if s["s"] == dt["s"]:
        return ret(st, args[0])
    # conversions between owned/boxed forms keep the value
    if dt["k"] == "adt" and dt["d"] in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc",
                                        "alloc::borrow::Cow", "alloc::vec::Vec", "alloc::string::String",
                                        "std::path::PathBuf", "camino::Utf8PathBuf"):
        if s["k"] == "ref" and not dt["d"].endswith("::Cow") and not (dt.get("a") and E.ty(dt["a"][0])["k"] == "ref"):
            return ret(st, E.resolve(st, args[0]))  # a copy of what is referred to
        return ret(st, args[0])
    return None


@model(r"convert::(TryFrom::try_from|TryInto::try_into)$")
def m_tryfrom(E, st, name, args, ctx):
    at = ctx["at"][0]
    dt = E.ty(ctx["dty"])
    if at is not None and E.int_bits(at) and dt["k"] == "adt" and dt["d"] == RES:
        inner = dt["a"][0]
        if E.int_bits(inner):
            a = E.resolve(st, args[0])
            sb, db = E.int_bits(at), E.int_bits(inner)
            if not E.is_signed(at) and db >= sb:
                return ret(st, ok(a))
            lim = (1 << (db - (1 if E.is_signed(inner) else 0))) - 1
            cond = le(a, c(lim))
            outs = []
            s2 = st.fork()
            if E.assume(st, cond, True):
                outs.append(("ret", st, ok(a), None))
            if E.assume(s2, cond, False):
                outs.append(("ret", s2, err(mk("sym", "TryFromIntError")), None))
            return outs
    if dt["k"] == "adt" and dt["d"] == RES:                                    # a slice as an array of a fixed length
        it = E.ty(dt["a"][0])
        if it["k"] == "ref":
            it = E.ty(it["e"] if "e" in it else it["t"]) if ("e" in it or "t" in it) else it
        if it["k"] == "array" and isinstance(it.get("n"), int):
            v = E.resolve(st, E.deref_full(st, args[0]))
            if v.op == "agg" and v.a[0] == "alloc::borrow::Cow":
                v = fld(v, "0")
            if v.op in ("sym", "ref"):
                return None
            cond = eq(mk_len(v), c(it["n"]))
            outs = []
            s2 = st.fork()
            if E.assume(st, cond, True):
                outs.append(("ret", st, ok(v), None))
            if E.assume(s2, cond, False):
                outs.append(("ret", s2, err(mk("sym", "TryFromSliceError")), None))
            return outs
    return None


# ---- wrapping / checked arithmetic ----------------------------------------------------
@model(r"num::<impl [ui]\w+>::(wrapping|unchecked)_(add|sub|mul)$")
def m_wrap(E, st, name, args, ctx):
    a, b = args
    r = add(a, b) if name.endswith("add") else sub(a, b) if name.endswith("sub") else mul(a, b)
    return ret(st, r)


@model(r"num::<impl (u\w+)>::checked_(add|sub)$|num::<impl (u\w+)>::saturating_sub$")
def m_checked(E, st, name, args, ctx):
    a, b = (E.resolve(st, x) for x in args)
    if name.endswith("checked_sub"):
        cond = le(b, a)
        s2 = st.fork()
        r = []
        if E.assume(st, cond, True):
            r.append(("ret", st, some(sub(a, b)), None))
        if E.assume(s2, cond, False) and (b.op != "c" or E.assume(s2, le(c(0), a), True)):
            r.append(("ret", s2, NONE, None))
        return r
    if name.endswith("checked_add"):
        s2 = st.fork()
        cond = mk("overflows", add(a, b))
        r = []
        if E.assume(st, cond, False):
            r.append(("ret", st, some(add(a, b)), None))
        if E.assume(s2, cond, True):
            r.append(("ret", s2, NONE, None))
        return r
    cond = le(b, a)
    s2 = st.fork()
    r = []
    if E.assume(st, cond, True):
        r.append(("ret", st, sub(a, b), None))
    if E.assume(s2, cond, False):
        r.append(("ret", s2, c(0), None))
    return r


# ---- slices and vectors -----------------------------------------------------------------
@model(r"Vec::<T, A>::len$|slice::<impl \[T\]>::len$|String::len$|str::<impl str>::len$|smallvec::SmallVec::<A>::len$")
def m_len(E, st, name, args, ctx):
    return ret(st, mk_len(E.resolve(st, E.deref_full(st, args[0]))))


@model(r"Vec::<T, A>::is_empty$|slice::<impl \[T\]>::is_empty$|str::<impl str>::is_empty$|String::is_empty$")
def m_isempty(E, st, name, args, ctx):
    return ret(st, eq(mk_len(E.resolve(st, E.deref_full(st, args[0]))), c(0)))


@model(r"Index::index$|IndexMut::index_mut$")
def m_index(E, st, name, args, ctx):
    at = ctx["at"]
    root, path = E.deref_loc(st, args[0])
    i = E.deref_full(st, args[1])
    it = E.ty(at[1])["s"] if at[1] is not None else ""
    base = E.resolve(st, E.read(st, root, path))
    mut = name.endswith("mut")
    if it == "usize":
        st.emit(Eff("index", "index", (base, i), None, ctx["fn"]["path"], ctx["span"])) if E.asserts else None
        return ret(st, mk("ref", root, path + (("i", i),), mut))
    rng = range_of(E, st, i, it, mk_len(base))
    if rng is not None:
        st.emit(Eff("index", "slice", (base, rng[0], rng[1]), None, ctx["fn"]["path"], ctx["span"])) if E.asserts else None
        if root[0] == "S" and not path and not mut and root not in st.mem:
            return ret(st, mk_slice(root[1], *rng))
        return ret(st, mk("ref", root, path + (("slice",) + rng,), mut))
    return None


def range_of(E, st, i, it, ln):
    if i.op == "agg" and "core::ops::range::Range" in (i.a[0] or ""):
        n = i.a[0].rsplit("::", 1)[1]
        s, e = fld(i, "start"), fld(i, "end")
        if n == "Range":
            return s, e
        if n == "RangeFrom":
            return s, ln
        if n == "RangeTo":
            return c(0), e
        if n == "RangeInclusive":
            return s, add(e, c(1))
    if "RangeFull" in it:
        return c(0), ln
    return None


@model(r"range::RangeInclusive::<Idx>::new$")
def m_rinc(E, st, name, args, ctx):
    return ret(st, agg("core::ops::range::RangeInclusive", None, ("start", "end", "exhausted"), (args[0], args[1], FALSE)))


@model(r"slice::<impl \[T\]>::(get|get_mut)$")
def m_get(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    i = E.deref_full(st, args[1])
    it = E.ty(ctx["at"][1])["s"]
    base = E.resolve(st, E.read(st, root, path))
    ln = mk_len(base)
    if it == "usize":
        cond = lt(i, ln)
        v = mk("ref", root, path + (("i", i),), name.endswith("mut"))
    else:
        rng = range_of(E, st, i, it, ln)
        if rng is None:
            return None
        cond = le(rng[1], ln)
        v = mk("ref", root, path + (("slice",) + rng,), name.endswith("mut"))
    s2 = st.fork()
    r = []
    if E.assume(st, cond, True):
        r.append(("ret", st, some(v), None))
    if E.assume(s2, cond, False):
        r.append(("ret", s2, NONE, None))
    return r


@model(r"slice::<impl \[T\]>::(first|last)(_mut)?$")
def m_last(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    base = E.resolve(st, E.read(st, root, path))
    ln = mk_len(base)
    i = c(0) if "first" in name.rsplit("::", 1)[1] else sub(ln, c(1))
    s2 = st.fork()
    r = []
    if E.assume(st, lt(c(0), ln), True):
        r.append(("ret", st, some(mk("ref", root, path + (("i", i),), name.endswith("mut"))), None))
    if E.assume(s2, lt(c(0), ln), False):
        r.append(("ret", s2, NONE, None))
    return r


@model(r"slice::<impl \[T\]>::split_(first|last)(_mut)?$")
def m_split_end(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    ln = mk_len(E.resolve(st, E.read(st, root, path)))
    mut = name.endswith("mut")
    i, rng = (c(0), (c(1), ln)) if "first" in name.rsplit("::", 1)[1] else (sub(ln, c(1)), (c(0), sub(ln, c(1))))
    s2 = st.fork()
    r = []
    if E.assume(st, lt(c(0), ln), True):
        r.append(("ret", st, some(tup(mk("ref", root, path + (("i", i),), mut), mk("ref", root, path + (("slice",) + rng,), mut))), None))
    if E.assume(s2, lt(c(0), ln), False):
        r.append(("ret", s2, NONE, None))
    return r


@model(r"Vec::<T, A>::push$")
def m_push(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    old = E.resolve(st, E.read(st, root, path))
    v = E.resolve(st, args[1])
    rargs = (old, v)
    k = st.occ((name, rargs))
    st.emit(Eff("call", name, rargs, mk("call", name, rargs, k), ctx["fn"]["path"], ctx["span"], rdef=ctx["f"].get("rdef"), full=ctx["f"].get("full"), x=dict(raw=tuple(args), extra=None)))
    E.write(st, root, path, mk("push", old, v))
    return ret(st, UNIT)


@model(r"slice::<impl \[T\]>::(split_at|split_at_mut)$")
def m_splitat(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    base = E.resolve(st, E.read(st, root, path))
    i = args[1]
    mut = name.endswith("mut")
    return ret(st, tup(mk("ref", root, path + (("slice", c(0), i),), mut), mk("ref", root, path + (("slice", i, mk_len(base)),), mut)))


@model(r"slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def m_copyfrom(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    v = E.resolve(st, E.deref_full(st, args[1]))
    st.emit(Eff("call", name, (E.resolve(st, args[0]), v), None, ctx["fn"]["path"], ctx["span"]))
    E.write(st, root, path, v)
    return ret(st, UNIT)


@model(r"Vec::<T>::(new|with_capacity)$|Vec::<T, A>::(new_in|with_capacity_in)$|^smallvec::SmallVec::<A>::new$|String::new$|<alloc::vec::Vec<T> as core::default::Default>::default$")
def m_vecnew(E, st, name, args, ctx):
    v = mk("vec", st.occ(("vec",)))
    if args and "with_capacity" in name:
        st.cnt[("cap", v)] = E.resolve(st, args[0])      # where a rule needs it: t.st.cnt
    return ret(st, v)


@model(r"vec::from_elem$")
def m_fromelem(E, st, name, args, ctx):
    return ret(st, mk("repeat", args[0], args[1]))


@model(r"slice::<impl \[T\]>::into_vec$|^alloc::boxed::box_new$|^alloc::slice::hack::into_vec|box_assume_init_into_vec")
def m_intovec(E, st, name, args, ctx):
    return ret(st, args[0])


# ---- iterators --------------------------------------------------------------------------------
def iter_obj(E, st, v):
    v = E.deref_full(st, v)
    return v


def is_iter(v):
    return v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("it:")


def mk_iter(kind, **kw):
    ks = tuple(sorted(kw))
    return mk("agg", "it:" + kind, None, ks, *[kw[k] for k in ks])


def to_iter(E, st, v, mut=False):
    """iterator over value v (a reference to / value of a collection)"""
    d = E.deref_full(st, v)
    if is_iter(d):
        return d
    if d.op == "agg" and d.a[0] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        return d
    if d.op == "agg" and d.a[0] == OPT:
        return d
    src = v
    return mk_iter("seq", src=src, pos=c(0), mut=TRUE if mut else FALSE)


@model(r"rayon::iter::IntoParallelRef(Mut)?Iterator::par_iter(_mut)?$|rayon::iter::IntoParallelIterator::into_par_iter$")
def m_par_iter(E, st, name, args, ctx):
    """an indexed parallel iterator over a slice: the elements, in any order, each with its own index"""
    if E.deref_full(st, args[0]).op == "agg":
        return None
    return ret(st, mk_iter("seq", src=args[0], pos=c(0), mut=TRUE if name.endswith("par_iter_mut") else FALSE))


@model(r"IntoIterator::into_iter$|slice::<impl \[T\]>::(iter|iter_mut)$|Vec::<T, A>::drain$")
def m_intoiter(E, st, name, args, ctx):
    v = args[0]
    d = E.deref_full(st, v)
    if is_iter(d):
        return ret(st, d)
    if d.op == "agg" and d.a[0] and d.a[0].startswith("core::ops::range::"):
        return ret(st, d)
    dty = E.ty(ctx["dty"])["s"]
    aty = E.ty(ctx["at"][0]) if ctx.get("at") and ctx["at"][0] is not None else {"s": "?", "k": "?"}
    if seq_type(dty):
        if name.endswith("drain"):
            root, path = E.deref_loc(st, v)
            old = E.read(st, root, path)
            if not (len(args) > 1 and E.ty(ctx["at"][1])["s"].endswith("RangeFull")):
                return None
            st.emit(Eff("call", name, (E.resolve(st, old),), None, ctx["fn"]["path"], ctx["span"]))
            if root == ("S", old) and not path:
                old = mk("slice", old, c(0), mk_len(old))  # the elements it had, under a name that is not its address
            E.write(st, root, path, mk("vec", st.occ(("vec",))))
            return ret(st, mk_iter("seq", src=old, pos=c(0), mut=FALSE))
        return ret(st, mk_iter("seq", src=v, pos=c(0), mut=TRUE if "IterMut" in dty else FALSE))
    if name.endswith("into_iter") and aty["s"] == dty:
        return ret(st, v)
    return None


def seq_type(s):
    return bool(re.match(r"^(core::slice::iter::(Iter|IterMut)|alloc::vec::into_iter::IntoIter|alloc::vec::drain::Drain|core::array::iter::IntoIter)<", s))


@model(r"rayon::iter::IndexedParallelIterator::(with_min_len|with_max_len)$")
def m_par_tuning(E, st, name, args, ctx):
    return ret(st, args[0])


@model(r"rayon::iter::(IndexedParallelIterator::(enumerate|rev|zip|take|skip|step_by)|ParallelIterator::(map|filter|filter_map|cloned|copied))$|iterator::Iterator::(enumerate|rev|map|filter|zip|take|skip|peekable|chain|cloned|copied|by_ref|filter_map|step_by)$")
def m_adapt(E, st, name, args, ctx):
    op = name.rsplit("::", 1)[1]
    it = args[0]
    if op == "by_ref":
        return ret(st, it)
    if it.op != "ref":
        if op in ("cloned", "copied"):
            return ret(st, it)
        if op == "enumerate":
            return ret(st, mk_iter("enum", inner=it, n=c(0)))
        if op == "rev":
            if it.op == "agg" and it.a[0] == "it:seq":
                return ret(st, mk_iter("rev", src=fld(it, "src"), pos=fld(it, "pos"), mut=fld(it, "mut")))
            if it.op == "agg" and it.a[0] == "core::ops::range::Range":
                return ret(st, mk_iter("revrange", start=fld(it, "start"), end=fld(it, "end")))
            return None
        if op == "map":
            return ret(st, mk_iter("map", inner=it, f=args[1]))
        if op == "filter":
            return ret(st, mk_iter("filter", inner=it, f=args[1]))
        if op == "filter_map":
            return ret(st, mk_iter("filter_map", inner=it, f=args[1]))
        if op == "zip":
            return ret(st, mk_iter("zip", a=it, b=to_iter(E, st, args[1])))
        if op in ("take", "skip"):
            r = cut_iter(E, st, it, args[1], op)
            if r is not None:
                return [("ret", s, v, None) for s, v in r]
        if op == "take":
            return ret(st, mk_iter("take", inner=it, n=args[1]))
    return None


def cut_iter(E, st, it, n, op):
    """the first n elements, or all but the first n, of an iterator over a sequence or a range: [(st, iterator)]"""
    n = E.resolve(st, n)
    k = it.a[0] if it.op == "agg" else None
    if k == "it:seq":
        src, p = fld(it, "src"), fld(it, "pos")
        ln = mk_len(E.resolve(st, E.deref_full(st, src)))

        def part(s, a, b):
            d = src
            if d.op == "ref":
                while True:
                    x = E.read(s, d.a[0], d.a[1])
                    if x.op != "ref":
                        break
                    d = x
                root, path = d.a[0], d.a[1]
                ns = mk("ref", root, path + (("slice", a, b),), bool(d.a[2]))
            else:
                ns = mk_slice(E.resolve(s, src), a, b)
            return mk_iter("seq", src=ns, pos=c(0), mut=fld(it, "mut"))
    elif k == "core::ops::range::Range":
        p, ln = fld(it, "start"), fld(it, "end")

        def part(s, a, b):
            return upd(upd(it, "start", a), "end", b)
    else:
        return None
    m = add(p, n)
    cond = le(m, ln)
    s2 = st.fork()
    r = []
    if E.assume(st, cond, True):
        r.append((st, part(st, p, m) if op == "take" else part(st, m, ln)))
    if E.assume(s2, cond, False):
        r.append((s2, it if op == "take" else part(s2, ln, ln)))
    return r


def it_next(E, st, it, ctx):
    """-> list of (st, new iterator, element or None)   (None: exhausted)"""
    if it.op == "ref":
        root, path = it.a[0], it.a[1]
        r = []
        for s, ni, e in it_next(E, st, E.read(st, root, path), ctx):
            E.write(s, root, path, ni)
            r.append((s, it, e))
        return r
    k = it.a[0] if it.op == "agg" else None
    if k == "it:take":
        n = fld(it, "n")
        s2 = st.fork()
        r = []
        if E.assume(st, lt(c(0), n), True):
            r += [(s, upd(upd(it, "inner", ni), "n", sub(n, c(1))) if e is not None else upd(it, "inner", ni), e) for s, ni, e in it_next(E, st, fld(it, "inner"), ctx)]
        if E.assume(s2, lt(c(0), n), False):
            r.append((s2, it, None))
        return r
    if k == "it:seq" or k == "it:rev":
        src, p = fld(it, "src"), fld(it, "pos")
        base = E.resolve(st, E.deref_full(st, src))
        ln = mk_len(base)
        cond = lt(p, ln)
        s2 = st.fork()
        r = []
        if E.assume(st, cond, True):
            i = p if k == "it:seq" else sub(sub(ln, c(1)), p)
            if src.op == "ref":
                e = mk("ref", src.a[0], src.a[1] + (("i", i),), bool(fld(it, "mut").a[0]))
                if fld(it, "mut") is FALSE:
                    v = E.read(st, e.a[0], e.a[1])
                    if v.op in ("ref",):
                        pass
            else:
                e = E.index(base, i)
            r.append((st, upd(it, "pos", add(p, c(1))), e))
        if E.assume(s2, cond, False):
            r.append((s2, it, None))
        return r
    if k == "core::ops::range::Range":
        a, b = fld(it, "start"), fld(it, "end")
        cond = lt(a, b)
        s2 = st.fork()
        r = []
        if E.assume(st, cond, True):
            r.append((st, upd(it, "start", add(a, c(1))), a))
        if E.assume(s2, cond, False):
            r.append((s2, it, None))
        return r
    if k == "core::ops::range::RangeFrom":
        a = fld(it, "start")
        return [(st, upd(it, "start", add(a, c(1))), a)]
    if k == "core::ops::range::RangeInclusive":
        a, b = fld(it, "start"), fld(it, "end")
        cond = le(a, b)
        s2 = st.fork()
        r = []
        if E.assume(st, cond, True):
            r.append((st, upd(it, "start", add(a, c(1))), a))
        if E.assume(s2, cond, False):
            r.append((s2, it, None))
        return r
    if k == "it:revrange":
        a, b = fld(it, "start"), fld(it, "end")
        cond = lt(a, b)
        s2 = st.fork()
        r = []
        if E.assume(st, cond, True):
            r.append((st, upd(it, "end", sub(b, c(1))), sub(b, c(1))))
        if E.assume(s2, cond, False):
            r.append((s2, it, None))
        return r
    if k == "it:enum":
        n = fld(it, "n")
        return [(s, upd(upd(it, "inner", ni), "n", add(n, c(1))) if e is not None else upd(it, "inner", ni),
                 tup(n, e) if e is not None else None) for s, ni, e in it_next(E, st, fld(it, "inner"), ctx)]
    if k == "it:map":
        r = []
        for s, ni, e in it_next(E, st, fld(it, "inner"), ctx):
            if e is None:
                r.append((s, upd(it, "inner", ni), None))
                continue
            for kind, s2, v, why in E.call_value(s, fld(it, "f"), [e], ctx):
                if kind == "ret":
                    r.append((s2, upd(it, "inner", ni), v))
                else:
                    r.append((s2, it, ("panic", why)))
        return r
    if k == "it:filter":
        r = []
        for s, ni, e in it_next(E, st, fld(it, "inner"), ctx):
            if e is None:
                r.append((s, upd(it, "inner", ni), None))
                continue
            h = ("H", s.hid)
            s.hid += 1
            s.mem[h] = e
            for kind, s2, v, why in E.call_value(s, fld(it, "f"), [mk("ref", h, (), False)], ctx):
                if kind != "ret":
                    r.append((s2, it, ("panic", why)))
                    continue
                s2.mem.pop(h, None)
                if E.assume(s2, v, True):
                    # position unknown: some element that satisfies the predicate
                    r.append((s2, upd(it, "inner", ni), e))
        return r
    if k == "it:zip":
        r = []
        for s, na, ea in it_next(E, st, fld(it, "a"), ctx):
            if ea is None or isinstance(ea, tuple):
                r.append((s, upd(it, "a", na), ea))
                continue
            for s2, nb, eb in it_next(E, s, fld(it, "b"), ctx):
                r.append((s2, upd(upd(it, "a", na), "b", nb), tup(ea, eb) if eb is not None and not isinstance(eb, tuple) else eb))
        return r
    if k == OPT:
        if it.a[1] == "Some":
            return [(st, NONE, fld(it, "0"))]
        return [(st, it, None)]
    # unknown iterator: some element of it, or none
    s2 = st.fork()
    cond = mk("more", it)
    r = []
    if E.assume(st, cond, True):
        r.append((st, mk("nx", it), mk("elem", it)))
    if E.assume(s2, cond, False):
        r.append((s2, it, None))
    return r


@model(r"iterator::Iterator::next$|DoubleEndedIterator::next_back$")
def m_next(E, st, name, args, ctx):
    root, path = E.deref_loc(st, args[0])
    it = E.read(st, root, path)
    if name.endswith("next_back"):
        return None
    outs = it_next(E, st, it, ctx)
    r = []
    for s, ni, e in outs:
        if isinstance(e, tuple):
            r.append(("panic", s, None, e[1]))
            continue
        E.write(s, root, path, ni)
        r.append(("ret", s, NONE if e is None else some(e), None))
    return r


def drive(E, st, it, ctx, body, name):
    """run `body(st, elem) -> [(kind, st, payload)]` for every element.
    kinds: 'cont' (go on), 'brk' (stop, payload), 'panic'. -> list of (kind, st, payload); 'done' when exhausted."""
    h = ("H", st.hid)
    st.hid += 1
    st.mem[h] = it

    def explore(s):
        cur = s.mem[h]
        outs = []
        rs = it_next(E, s, cur, ctx)
        for s1, ni, e in rs:
            if isinstance(e, tuple):
                outs.append(("panic", s1, e[1]))
                continue
            s1.mem[h] = ni
            if e is None:
                outs.append(("exit", s1, ("done", None)))
                continue
            for kind, s2, p in body(s1, e):
                if kind == "cont":
                    outs.append(("back", s2))
                elif kind == "brk":
                    outs.append(("exit", s2, ("brk", p)))
                else:
                    outs.append(("panic", s2, p))
        return outs

    r = []
    for o in E.widen_loop(st, name, explore, ctx["span"], ctx["fn"]["path"]):
        o[1].mem.pop(h, None)
        if o[0] == "exit":
            r.append((o[2][0], o[1], o[2][1]))
        else:
            r.append(("panic", o[1], o[2]))
    return r


CF = "core::ops::control_flow::ControlFlow"


@model(r"iterator::Iterator::(try_for_each|try_fold)$")
def m_try(E, st, name, args, ctx):
    op = name.rsplit("::", 1)[1]
    dty = E.ty(ctx["dty"])
    kind = {RES: ("Ok", 0), OPT: ("Some", 1), CF: ("Continue", 0)}.get(dty.get("d")) if dty["k"] == "adt" else None
    if kind is None:
        return None
    good, gd = kind
    h = ("H", st.hid)
    st.hid += 1
    st.mem[h] = args[1] if op == "try_fold" else UNIT

    def body(s, e):
        r = []
        a = [s.mem[h], e] if op == "try_fold" else [e]
        for k, s2, v, why in E.call_value(s, args[-1], a, ctx):
            if k != "ret":
                r.append(("panic", s2, why))
                continue
            d = E.discr(s2, v, None)
            s3 = s2.fork()
            if E.assume(s2, eq(d, c(gd)), True):
                if op == "try_fold":
                    s2.mem[h] = E.resolve(s2, E.payload(v, good, "0"))
                r.append(("cont", s2, None))
            if E.assume(s3, eq(d, c(gd)), False):
                r.append(("brk", s3, v if v.op == "agg" else NONE if good == "Some" else err(E.payload(v, "Err", "0")) if good == "Ok" else v))
        return r
    r = []
    for k, s, p in drive(E, st, args[0], ctx, body, op):
        acc = s.mem.pop(h, None)
        if k == "panic":
            r.append(("panic", s, None, p))
        elif k == "brk":
            r.append(("ret", s, p, None))
        elif good == "Continue":
            r.append(("ret", s, mk("agg", CF, "Continue", ("0",), acc), None))
        else:
            r.append(("ret", s, ok(acc) if good == "Ok" else some(acc), None))
    return r


@model(r"rayon::iter::ParallelIterator::for_each$|iterator::Iterator::(for_each|all|any|position|find|fold|sum|count|collect|max|min|last|find_map)$|Extend::extend$|FromIterator::from_iter$")
def m_consume(E, st, name, args, ctx):
    op = name.rsplit("::", 1)[1]
    if op == "extend":
        tgt, it = args[0], to_iter(E, st, args[1])
    elif op == "from_iter":
        it = to_iter(E, st, args[0])
        op = "collect"
    else:
        it = args[0]
    if it.op not in ("agg", "ref"):
        if op in ("collect",):
            pass
    dty = E.ty(ctx["dty"])
    if op == "for_each":
        def body(s, e):
            return [("cont" if k == "ret" else "panic", s2, why) for k, s2, v, why in E.call_value(s, args[1], [e], ctx)]
        return [("ret" if k == "done" else "panic", s, UNIT, p) for k, s, p in drive(E, st, it, ctx, body, "for_each")]
    if op in ("all", "any", "position"):
        h = ("H", st.hid)
        st.hid += 1
        st.mem[h] = c(0)

        def body(s, e):
            r = []
            for k, s2, v, why in E.call_value(s, args[1], [e], ctx):
                if k != "ret":
                    r.append(("panic", s2, why))
                    continue
                v = E.resolve(s2, v)
                s3 = s2.fork()
                want = op != "all"
                if E.assume(s2, v, want):
                    r.append(("brk", s2, TRUE if op == "any" else FALSE if op == "all" else some(s2.mem[h])))
                if E.assume(s3, v, not want):
                    s3.mem[h] = add(s3.mem[h], c(1))
                    r.append(("cont", s3, None))
            return r
        dv = {"all": TRUE, "any": FALSE, "position": NONE}[op]
        return [("panic", s, None, p) if k == "panic" else ("ret", s, dv if k == "done" else p, None)
                for k, s, p in drive(E, st, it, ctx, body, op)]
    if op in ("find", "find_map"):
        def body(s, e):
            r = []
            h2 = ("H", s.hid)
            s.hid += 1
            s.mem[h2] = e
            a = mk("ref", h2, (), False) if op == "find" else e
            for k, s2, v, why in E.call_value(s, args[1], [a], ctx):
                if k != "ret":
                    r.append(("panic", s2, why))
                    continue
                s2.mem.pop(h2, None)
                v = E.resolve(s2, v) if op == "find" else v
                s3 = s2.fork()
                if op == "find":
                    if E.assume(s2, v, True):
                        r.append(("brk", s2, some(e)))
                    if E.assume(s3, v, False):
                        r.append(("cont", s3, None))
                else:
                    d = E.discr(s2, v, None)
                    if E.assume(s2, eq(d, c(1)), True):
                        r.append(("brk", s2, v if v.op == "agg" else some(E.payload(v, "Some", "0"))))
                    if E.assume(s3, eq(d, c(1)), False):
                        r.append(("cont", s3, None))
            return r
        return [("panic", s, None, p) if k == "panic" else ("ret", s, NONE if k == "done" else p, None)
                for k, s, p in drive(E, st, it, ctx, body, op)]
    if op == "fold":
        h = ("H", st.hid)
        st.hid += 1
        st.mem[h] = args[1]

        def body(s, e):
            r = []
            for k, s2, v, why in E.call_value(s, args[2], [s.mem[h], e], ctx):
                if k == "ret":
                    s2.mem[h] = E.resolve(s2, v)
                    r.append(("cont", s2, None))
                else:
                    r.append(("panic", s2, why))
            return r
        r = []
        for k, s, p in drive(E, st, it, ctx, body, op):
            if k == "done":
                r.append(("ret", s, s.mem.pop(h), None))
            else:
                r.append(("panic", s, None, p))
        return r
    if op in ("sum", "count", "max", "min", "last"):
        if op == "count" and it.op == "agg" and it.a[0] == "it:seq":
            return ret(st, sub(mk_len(E.resolve(st, E.deref_full(st, fld(it, "src")))), fld(it, "pos")))
        got = []

        def body(s, e):
            s.emit(Eff("fold", op, (E.resolve(s, E.deref_full(s, e)),), None, ctx["fn"]["path"], ctx["span"]))
            got.append(E.resolve(s, E.deref_full(s, e)))
            return [("cont", s, None)]
        r = []
        for k, s, p in drive(E, st, it, ctx, body, op):
            if k == "done":
                v = mk(op, E.resolve(s, it), *[g for g in dict.fromkeys(got)][-1:])
                if op in ("max", "min", "last"):
                    s2 = s.fork()
                    r.append(("ret", s2, NONE, None))
                    v = some(v)
                r.append(("ret", s, v, None))
            else:
                r.append(("panic", s, None, p))
        return r
    if op in ("collect", "extend"):
        got = []
        wrap = None
        if dty["k"] == "adt" and dty["d"] in (RES, OPT) and op == "collect":
            wrap = dty["d"]

        def body(s, e):
            r = []
            if wrap:
                e = E.deref_full(s, e)
                d = E.discr(s, e, None)
                good = c(0 if wrap == RES else 1)
                s3 = s.fork()
                if E.assume(s, eq(d, good), True):
                    v = E.resolve(s, E.payload(e, "Ok" if wrap == RES else "Some", "0"))
                    s.emit(Eff("yield", op, (v,), None, ctx["fn"]["path"], ctx["span"]))
                    r.append(("cont", s, None))
                if E.assume(s3, eq(d, good), False):
                    r.append(("brk", s3, err(E.payload(e, "Err", "0")) if wrap == RES else NONE))
                return r
            v = E.resolve(s, e)
            if op == "extend":
                s.emit(Eff("call", "alloc::vec::Vec::<T, A>::push", (E.resolve(s, tgt), v), None, ctx["fn"]["path"], ctx["span"]))
                rt, pt = E.deref_loc(s, tgt)
                E.write(s, rt, pt, mk("hv", E.resolve(s, E.read(s, rt, pt)), "alloc::vec::Vec::<T, A>::push", 0))
            else:
                s.emit(Eff("yield", op, (v,), None, ctx["fn"]["path"], ctx["span"]))
            return [("cont", s, None)]
        r = []
        for k, s, p in drive(E, st, it, ctx, body, op):
            if k == "panic":
                r.append(("panic", s, None, p))
            elif k == "brk":
                r.append(("ret", s, p, None))
            else:
                if op == "extend":
                    r.append(("ret", s, UNIT, None))
                else:
                    ys = []
                    if s.effs is not None:
                        e = s.effs[1]
                        if e.kind == "loop":
                            for i in e.x["iters"]:
                                ys += [x.args[0] for x in i.effs if x.kind == "yield"]
                    v = mk("collect", E.resolve(s, it), *dict.fromkeys(ys))
                    r.append(("ret", s, v if not wrap else (ok(v) if wrap == RES else some(v)), None))
        return r
    return None


# ---- locks ----------------------------------------------------------------------------------------
def lock_root(E, st, v):
    d = E.resolve(st, E.deref_full(st, v))
    return d


@model(r"mutex::Mutex::<T>::lock$|rwlock::RwLock::<T>::(read|write)$")
def m_lock(E, st, name, args, ctx):
    # identity of the lock: its place
    m = lock_id(E, st, args[0])
    k = st.occ(("lock", m))
    kind = name.rsplit("::", 1)[1]
    st.emit(Eff("lock", kind, (m,), None, ctx["fn"]["path"], ctx["span"]))
    root = ("M", m, kind, k)
    st.mem[root] = mk("locked", m, k)
    return ret(st, ok(mk("ref", root, (), kind != "read")))


def lock_id(E, st, v):
    d = E.resolve(st, v)
    d = strip_hv(d)
    # Mutex::new(x) built locally
    return d


@model(r"(mutex::Mutex|rwlock::RwLock)::<T>::(new|into_inner)$")
def m_mutexnew(E, st, name, args, ctx):
    if name.endswith("new"):
        return ret(st, mk("mutex", E.resolve(st, args[0])))
    return None


@model(r"Condvar::wait_while$")
def m_waitwhile(E, st, name, args, ctx):
    cv = E.resolve(st, args[0])
    guard = args[1]
    root, path = E.deref_loc(st, guard)
    k = st.occ(("wait",))
    fresh = mk("waited", cv, k)
    E.write(st, root, path, fresh)
    # predicate on the fresh value
    r = []
    for kind, s, v, why in E.call_value(st.fork(), args[2], [mk("ref", root, path, True)], ctx):
        if kind != "ret":
            r.append(("panic", s, None, why))
            continue
        v = E.resolve(s, v)
        s.emit(Eff("wait", "wait_while", (cv, v, E.resolve(s, guard)), None, ctx["fn"]["path"], ctx["span"], x=dict(pred=v, val=fresh)))
        if E.assume(s, v, False):
            r.append(("ret", s, ok(guard), None))
    return r


@model(r"Condvar::wait$")
def m_wait(E, st, name, args, ctx):
    cv = E.resolve(st, args[0])
    root, path = E.deref_loc(st, args[1])
    k = st.occ(("wait",))
    fresh = mk("waited", cv, k)
    st.emit(Eff("wait", "wait", (cv,), None, ctx["fn"]["path"], ctx["span"], x=dict(pred=None, val=fresh)))
    E.write(st, root, path, fresh)
    return ret(st, ok(args[1]))


# ---- threads: the closure runs elsewhere; it is analysed as its own entry point ------------------
@model(r"std::thread::(functions::)?spawn$|thread::builder::Builder::(spawn|spawn_unchecked)$|^rayon_core::spawn|^rayon::spawn|rayon_core::spawn::spawn|ThreadPool::spawn")
def m_spawn(E, st, name, args, ctx):
    return E.opaque_call(st, name, args, ctx, pure=False, extra="noclosure")


@model(r"once_lock::OnceLock::<T>::get_or_init$|once_lock::OnceLock::<T>::get_or_try_init$")
def m_once(E, st, name, args, ctx):
    o = E.resolve(st, args[0])
    st.emit(Eff("call", name, (o,), None, ctx["fn"]["path"], ctx["span"]))
    s2 = st.fork()
    r = [("ret", s2, mk("once", o), None)]
    for kind, s, v, why in E.call_value(st, args[1], [], ctx):
        if kind == "ret":
            s.emit(Eff("init", "once", (o, E.resolve(s, v)), None, ctx["fn"]["path"], ctx["span"]))
            r.append(("ret", s, v, None))
        else:
            r.append(("panic", s, None, why))
    return r


# ---- CRC: a digest is the algorithm and the data fed so far ----------------------------
def crc_alg(E, st, v):
    v = E.resolve(st, E.deref_full(st, v))
    a = fld(v, "algorithm")
    a = E.resolve(st, E.deref_full(st, a))
    return tup(*[fld(a, str(i)) for i in range(6)]) if a.op == "agg" else a


def crc_val(d):
    return mk("crc", fld(d, "alg"), *kids(fld(d, "data")))


@model(r"^crc::.*Crc<.*::(digest|checksum)$")
def m_crc(E, st, name, args, ctx):
    alg = crc_alg(E, st, args[0])
    if name.endswith("checksum"):
        return ret(st, mk("crc", alg, E.resolve(st, E.deref_full(st, args[1]))))
    return ret(st, agg("crcdig", None, ("alg", "data"), (alg, mk("cat"))))


@model(r"^crc::.*Digest<.*::(update|finalize)$")
def m_crcdig(E, st, name, args, ctx):
    d = E.resolve(st, E.deref_full(st, args[0]))
    if d.op != "agg" or d.a[0] != "crcdig":
        return None
    if name.endswith("finalize"):
        return ret(st, crc_val(d))
    if args[0].op != "ref":
        return None
    data = E.resolve(st, E.deref_full(st, args[1]))
    n = upd(d, "data", mk("cat", *(list(fld(d, "data").a) + [data])))
    E.write(st, args[0].a[0], args[0].a[1], n)
    return ret(st, tup())


@model(r"^core::default::Default::default$")
def m_default(E, st, name, args, ctx):
    if ctx["f"].get("ga"):
        ty = E.ty(ctx["f"]["ga"][0])
        if ty["k"] in ("int", "uint", "bool"):
            return ret(st, c(0))
    return None
