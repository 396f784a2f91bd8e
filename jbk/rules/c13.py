"""C13 — all views of a stored content agree."""
from .core import *
from .entries import evs, consistent

LEVEL = "other"
FLOOR = 60
TECHNIQUE = ("Interprocedural value-flow analysis of MIR: every constructor, cut, conversion and read of ByteRegion / ByteSlice / "
             "ByteStream / Reader / CheckReader and of the Source implementations is reduced to terms (source, absolute region, absolute "
             "cursor) over its inputs, and compared with the frozen view algebra")
ASSUMPTIONS = ["std's Read/Seek/slice semantics", "offset arithmetic does not overflow u64",
               "which bytes a codec produces is not decided"]

REG = lambda v: (F(v, "region", "begin"), F(v, "region", "end"))
NONE_CHECK = lambda t, v: isagg(v, variant="None") or (v.op == "c" and v.a[0] == 0)


def rng(v):
    """(begin, end) of a Region/ARegion term"""
    return F(v, "begin"), F(v, "end")


def eqrng(t, v, b, e):
    x, y = rng(v)
    return teq(t, x, b) and teq(t, y, e)


def _legit():
    """requests inside what there is: offset o, n bytes, of 100; for views of [100, 200), sources and parsers of 100 bytes, small and beyond 32 bits"""
    r = []
    for k in (1, 1 << 33):
        for o, n in ((0, 100), (0, 0), (100, 0), (40, 60), (10, 20), (0, 96), (40, 56)):
            o, n = o * k, n * k
            e = {F(A[0], "region", "begin"): 100 * k, F(A[0], "region", "end"): 200 * k, F(A[0], "begin"): 100 * k, F(A[0], "end"): 200 * k,
                 A[1]: o, A[2]: n, mk_len(A[1]): o, mk_len(A[2]): n, F(A[1], "begin"): o, F(A[1], "end"): o + n,
                 mk_len(A[0]): 100 * k, F(A[0], "total_size"): 100 * k, F(A[0], "offset"): 100 * k - o, mk_len(F(A[0], "slice")): 100 * k,
                 mk("discr", A[2]): 0}
            r.append(dict(e, **{}) | {mk("discr", A[3]): 0})
            if (o + n) // k + 4 <= 100:
                r.append(e | {mk("discr", A[3]): 1})
    return r


LEGIT = _legit()


def only(cx, rule, key, ts):
    o = oks(ts)
    if not o:
        cx.ob(rule, key, "returns", False, "no successful path")
    n = 0
    for t in ts:
        if t.kind == "ret" and not (t.val is not None and isagg(t.val) and t.val.a[1] in ("Err", "None")):
            continue
        if any(x.op == "discr" and lo == 1 and x.a[0].op == "call" for x, (lo, hi, ex) in t.bnd.items()):
            continue        # something it asked for failed
        if any(x not in A for x in t.facts):
            continue
        n += 1
        if any(x.op == "discr" and hi != lo and hi is not None for x, (lo, hi, ex) in t.bnd.items()):
            continue        # several outcomes in one
        for env in LEGIT:
            if all(evs(x, env) is not None for x in t.bnd) and consistent(t.bnd, t.facts, env):
                cx.ob(rule, key, "nothing inside is refused", False, "ends in %s although what is asked for is there, when %s" % (
                    "a panic" if t.kind != "ret" else "an error", ", ".join("%s = %d" % (show(y), env[y]) for y in env if any(y is z for x in t.bnd for z in walk(x)))))
                break
    if n:
        cx.ob(rule, key, "refusals judged", True, "")
    return o


def r_region(cx):
    R = "region-cut"
    cx.rule(R, "cut_rel(o,s) of [b,e) is [b+o, b+o+s); size is e-b")
    for name in ("cut_rel", "cut_rel_asize"):
        k = cx.m("Range", name)
        for t in only(cx, R, k, cx.traces(k)):
            b = F(A[0], "begin")
            cx.ob(R, k, "begin/end", eqrng(t, t.val, add(b, A[1]), add(add(b, A[1]), A[2])), "cut of %s" % show(t.val))
    for typ, name, f in (("Range", "size", lambda s: sub(F(s, "end"), F(s, "begin"))), ("Range", "begin", lambda s: F(s, "begin")), ("Range", "end", lambda s: F(s, "end")),
                         ("ARegion", "size", lambda s: sub(F(s, "end"), F(s, "begin"))), ("ARegion", "begin", lambda s: F(s, "begin")), ("ARegion", "end", lambda s: F(s, "end"))):
        try:
            # the concrete instance: Range<Offset>
            ks = [x for x in cx.keys(r"::%s(::<.*>)?::%s( \[|$)" % (typ, name)) if "EntryIdx" not in x and "[T]" not in x]
            k = sorted(ks, key=len)[0]
        except IndexError:
            raise Anchor("%s::%s" % (typ, name))
        for t in only(cx, R, k, cx.traces(k)):
            cx.ob(R, k, name, teq(t, t.val, f(A[0])), "returns %s" % show(t.val))


def r_views(cx):
    R = "view"
    cx.rule(R, "size = e-b; stream/cut/as_slice/conversions keep the source and the absolute region; a stream's cursor starts at the region's "
               "begin; slices and reads address region.begin + relative offset")
    for V in ("ByteRegion", "ByteSlice"):
        s = A[0]
        rb, re_ = REG(s)
        src = F(s, "source")
        k = cx.m(V, "size")
        for t in only(cx, R, k, cx.traces(k)):
            cx.ob(R, k, "size", teq(t, t.val, sub(re_, rb)), show(t.val))
        k = cx.m(V, "stream")
        for t in only(cx, R, k, cx.traces(k)):
            v = t.val
            cx.ob(R, k, "source", isagg(v, "ByteStream") and teq(t, F(v, "source"), src), show(v))
            cx.ob(R, k, "region", eqrng(t, F(v, "region"), rb, re_), show(v))
            cx.ob(R, k, "cursor", teq(t, F(v, "offset"), rb), "cursor starts at %s, not at the region's begin" % show(F(v, "offset")))
        k = cx.m(V, "cut")
        for t in only(cx, R, k, cx.traces(k)):
            v = t.val
            cx.ob(R, k, "source", isagg(v, "ByteSlice") and teq(t, F(v, "source"), src), show(v))
            cx.ob(R, k, "region", eqrng(t, F(v, "region"), add(rb, A[1]), add(add(rb, A[1]), A[2])), show(v))
        k = cx.m(V, "get_slice")
        slice_call(cx, R, k, src, rb, A[1], A[2])
        for m_, o, n in (("read_slice", A[1], A[2]),):
            k = cx.m(V, m_, "RandomParser")
            slice_call(cx, R, k, src, rb, o, n)
        k = cx.m(V, "read_data", "RandomParser")
        for t in only(cx, R, k, cx.traces(k)):
            cs = calls(t, "Source::read_exact")
            cx.ob(R, k, "read_exact", len(cs) == 1 and teq(t, cs[0].args[0], src) and teq(t, cs[0].args[1], add(rb, A[1])) and base_obj(cs[0].args[2]) is A[2],
                  "; ".join(map(repr, cs)))
        k = cx.m(V, "global_offset", "RandomParser")
        for t in only(cx, R, k, cx.traces(k)):
            cx.ob(R, k, "global_offset", teq(t, t.val, rb), show(t.val))
        k = cx.m(V, "create_parser", "RandomParser")
        for t in only(cx, R, k, cx.traces(k)):
            cs = calls(t, "Source::get_slice")
            ok = len(cs) == 1 and teq(t, cs[0].args[0], src)
            cx.ob(R, k, "source", ok, repr(cs))
            if ok:
                b, e = rng(cs[0].args[1])
                want = add(add(rb, A[1]), mk("min", *sorted((c(0xFFFF), sub(sub(re_, rb), A[1])), key=lambda x: x.id)))
                cx.ob(R, k, "window", teq(t, b, add(rb, A[1])) and teq(t, e, want), "window [%s, %s)" % (show(b), show(e)))
                v = okval(t)
                cx.ob(R, k, "parser offset", teq(t, F(v, "global_offset"), add(rb, A[1])) and teq(t, F(v, "offset"), c(0)), show(v))
    k = cx.m("ByteRegion", "as_slice")
    for t in only(cx, R, k, cx.traces(k)):
        v = t.val
        cx.ob(R, k, "as_slice", isagg(v, "ByteSlice") and teq(t, F(v, "source"), F(A[0], "source")) and eqrng(t, F(v, "region"), *REG(A[0])), show(v))


def slice_call(cx, R, k, src, rb, o, n):
    for t in only(cx, R, k, cx.traces(k)):
        cs = calls(t, "Source::get_slice")
        ok = len(cs) == 1 and teq(t, cs[0].args[0], src) and eqrng(t, cs[0].args[1], add(rb, o), add(add(rb, o), n)) and NONE_CHECK(t, cs[0].args[2])
        cx.ob(R, k, "get_slice", ok, "; ".join(map(repr, cs)) or "no Source::get_slice")
        if ok:
            res = cs[0].res
            v = t.val
            same = v is res or (isagg(v, variant="Ok") and okval(t) is mk("pl", res, "Ok", "0"))
            cx.ob(R, k, "result", same, "returns %s" % show(v))


def r_conversions(cx):
    R = "conversion"
    cx.rule(R, "every function of the crate that yields a ByteStream/ByteRegion/ByteSlice from another view keeps (source, region), and every "
               "ByteStream it builds has its cursor at the begin of its region")
    n = 0
    for k in cx.roots(lambda f: f.get("name") in ("from", "into") and (f.get("trait") or "").split("::")[-1] in ("From", "Into")):
        f = cx.fn(k)
        ret = cx.lib.types[f["locals"][0]]["s"]
        a1 = cx.lib.types[f["locals"][1]]["s"]
        if not any("::" + V in ret for V in ("ByteStream", "ByteRegion", "ByteSlice")) or not any("::" + V in a1 for V in ("ByteStream", "ByteRegion", "ByteSlice")):
            continue
        n += 1
        for t in only(cx, R, k, cx.traces(k)):
            v = okval(t)
            cx.ob(R, k, "source/region", teq(t, F(v, "source"), F(A[0], "source")) and eqrng(t, F(v, "region"), *REG(A[0])), show(v))
            if isagg(v, "ByteStream"):
                cx.ob(R, k, "cursor", teq(t, F(v, "offset"), F(v, "region", "begin")),
                      "stream cursor is %s, the region begins at %s" % (show(F(v, "offset")), show(F(v, "region", "begin"))))
    cx.ob(R, "crate", "conversions found", n >= 2, "only %d conversions between views found" % n)
    # every place where a ByteStream aggregate is born
    sites = 0
    for f in cx.lib.local_fns():
        if not f.get("root"):
            continue
        if any(st[0] == "=" and st[2][0] == "agg" and "ByteStream" in str(st[2][1]) for b in f["blocks"] for st in b["s"]):
            sites += 1
            k = f["key"]
            nm = f["path"].split("::")[-1]
            if nm == "new_from_parts":
                for t in only(cx, R, k, cx.traces(k)):
                    cx.ob(R, k, "parts", teq(t, F(t.val, "source"), A[0]) and eqrng(t, F(t.val, "region"), *rng(A[1])) and teq(t, F(t.val, "offset"), A[2]), show(t.val))
                continue
            if f.get("selfd", "").endswith("::ByteStream") or True:
                for t in oks(cx.traces(k)):
                    for v in aggs(t.val, "ByteStream"):
                        cx.ob(R, k, "cursor of a new stream", teq(t, F(v, "offset"), F(v, "region", "begin")), show(v))
    # callers of new_from_parts, wherever they are
    np_ = cx.m("ByteStream", "new_from_parts")
    for f in cx.lib.local_fns():
        if f.get("root") and any(b["t"]["k"] == "call" and str(b["t"].get("f", {}).get("def", "")).endswith("ByteStream::new_from_parts") for b in f["blocks"]):
            for t in oks(cx.traces(f["key"])):
                for v in aggs(t.val, "ByteStream"):
                    cx.ob(R, f["key"], "cursor of a built stream", teq(t, F(v, "offset"), F(v, "region", "begin")),
                          "cursor %s, region begins at %s" % (show(F(v, "offset")), show(F(v, "region", "begin"))))


def r_stream(cx):
    R = "stream"
    cx.rule(R, "size_left = end-cursor, size = end-begin, offset = cursor-begin; read asks the source at the cursor for at most size_left bytes, "
               "advances the cursor by what was read and returns that count")
    s = A[0]
    rb, re_ = REG(s)
    cur = F(s, "offset")
    for name, want in (("size_left", sub(re_, cur)), ("size", sub(re_, rb)), ("offset", sub(cur, rb))):
        k = cx.m("ByteStream", name)
        for t in only(cx, R, k, cx.traces(k)):
            cx.ob(R, k, name, teq(t, t.val, want), "returns %s" % show(t.val))
    k = cx.m("ByteStream", "read", "Read")
    want = mk("min", *sorted((mk_len(A[1]), sub(re_, cur)), key=lambda x: x.id))
    for t in only(cx, R, k, cx.traces(k)):
        cs = calls(t, "Source::read")
        if not cs:
            # nothing asked from the source: only right when nothing can be read
            z = isagg(t.val, variant="Ok") and teq(t, okval(t), c(0))
            empty = implied(t, eq(mk_len(A[1]), c(0))) or implied(t, le(re_, cur)) or implied(t, eq(re_, cur)) or implied(t, eq(under(t, want), c(0)))
            cx.ob(R, k, "read", z and empty, "a path reads nothing: %s" % show(t.val))
            continue
        ok = len(cs) == 1 and teq(t, cs[0].args[0], F(s, "source")) and teq(t, cs[0].args[1], cur)
        cx.ob(R, k, "reads at the cursor", ok, repr(cs))
        b = cs[0].args[2]
        whole = b if b.op != "slice" else None
        okl = (b.op == "slice" and base_obj(b.a[0]) is A[1] and teq(t, b.a[1], c(0)) and teq(t, b.a[2], want)) or (whole is A[1] and implied(t, le(mk_len(A[1]), sub(re_, cur))))
        cx.ob(R, k, "at most size_left", okl, "asks for %s" % show(b))
        got = mk("pl", cs[0].res, "Ok", "0")
        fin = final(t, s)
        cx.ob(R, k, "returns the count", okval(t) is got, show(t.val))
        cx.ob(R, k, "cursor advance", teq(t, F(fin, "offset"), add(cur, got)), "cursor becomes %s" % show(F(fin, "offset")))
        cx.ob(R, k, "region unchanged", F(fin, "region") is F(s, "region") and F(fin, "source") is F(s, "source"), show(fin))
    for t in errs(cx.traces(k)):
        fin = final(t, s)
        cx.ob(R, k, "error leaves the cursor", teq(t, F(fin, "offset"), cur), show(fin))


def r_reader(cx):
    R = "reader"
    cx.rule(R, "Reader/CheckReader cuts, streams and slices address region.begin + offset of the same source; what a Source::cut returns is used unchanged")
    s = A[0]
    rb, re_ = REG(s)
    src = F(s, "source")
    k = cx.m("Reader", "get_byte_slice")
    for t in only(cx, R, k, cx.traces(k)):
        v = t.val
        cx.ob(R, k, "slice", isagg(v, "ByteSlice") and teq(t, F(v, "source"), src) and eqrng(t, F(v, "region"), add(rb, A[1]), add(add(rb, A[1]), A[2])), show(v))
    for name in ("create_stream", "cut", "cut_check"):
        k = cx.m("Reader", name)
        for t in only(cx, R, k, cx.traces(k, paths=True)):
            cs = calls(t, "Source::cut")
            ok = len(cs) == 1 and teq(t, cs[0].args[0], src) and eqrng(t, cs[0].args[1], add(rb, A[1]), add(add(rb, A[1]), A[2]))
            cx.ob(R, k, "cut region", ok, repr(cs))
            if not ok:
                continue
            if name == "cut_check":
                cx.ob(R, k, "block check", cs[0].args[2] is A[3], repr(cs))
            else:
                cx.ob(R, k, "block check", NONE_CHECK(t, cs[0].args[2]), repr(cs))
            p = mk("pl", cs[0].res, "Ok", "0")
            v = okval(t)
            cx.ob(R, k, "result", teq(t, F(v, "source"), F(p, "0")) and eqrng(t, F(v, "region"), *rng(F(p, "1"))), show(v))
            if name == "create_stream":
                cx.ob(R, k, "cursor", teq(t, F(v, "offset"), F(p, "1", "begin")), show(v))
    k = cx.m("CheckReader", "create_parser")
    for t in only(cx, R, k, cx.traces(k)):
        cs = calls(t, "Source::get_slice")
        cx.ob(R, k, "window", len(cs) == 1 and teq(t, cs[0].args[0], src) and eqrng(t, cs[0].args[1], add(rb, A[1]), add(add(rb, A[1]), A[2])), repr(cs))
        v = okval(t)
        cx.ob(R, k, "parser", teq(t, F(v, "offset"), c(0)) and teq(t, F(v, "global_offset"), add(rb, A[1])), show(v))
    k = cx.m("CheckReader", "get_slice")
    slice_call(cx, R, k, src, rb, A[1], A[2])
    for name, want in (("size", sub(re_, rb)), ("global_offset", rb)):
        k = cx.m("Reader", name)
        for t in only(cx, R, k, cx.traces(k)):
            cx.ob(R, k, name, teq(t, t.val, want), show(t.val))
    k = cx.m("Reader", "from", "From", arg="From<jubako::bases::reader::CheckReader>")
    for t in only(cx, R, k, cx.traces(k)):
        cx.ob(R, k, "same view", F(t.val, "source") is src and eqrng(t, F(t.val, "region"), rb, re_), show(t.val))


def r_sources(cx):
    R = "source"
    cx.rule(R, "each Source returns the bytes at the asked absolute offsets: read/read_exact at `offset`, get_slice/cut exactly [begin, end) "
               "(or a copy of it re-based at 0)")
    off, buf = A[1], A[2]
    crc = ["assert_slice_crc"]
    # in memory
    k = cx.m("T", "read", "Source")
    for t in only(cx, R, k, cx.traces(k)):
        cs = calls(t, "Read::read")
        cs2 = [e for e in t.calls("copy_from_slice")]
        ok = len(cs) == 1 and cs[0].args[0].op == "slice" and cs[0].args[0].a[0] is A[0] and teq(t, cs[0].args[0].a[1], off) and base_obj(cs[0].args[1]) is buf
        cx.ob(R, k, "read", ok or bool(cs2), repr(cs))
    k = cx.m("T", "read_exact", "Source")
    for t in only(cx, R, k, cx.traces(k)):
        cs = calls(t, "copy_from_slice")
        ok = len(cs) == 1 and base_obj(cs[0].args[0]) is buf and is_slice(t, cs[0].args[1], A[0], off, add(off, mk_len(buf)))
        cx.ob(R, k, "copies [offset, offset+len)", ok, repr(cs))
    k = cx.m("T", "get_slice", "Source")
    for t in only(cx, R, k, cx.traces(k, crc)):
        v = okval(t)
        s = agg_get(v, "0") if isagg(v, variant="Borrowed") or isagg(v, variant="Owned") else v
        cx.ob(R, k, "slice", is_slice(t, s, A[0], *rng(A[1])), show(v))
    k = cx.m("T", "cut", "Source")
    for t in only(cx, R, k, cx.traces(k, crc)):
        v = okval(t)
        cx.ob(R, k, "same source and region", F(v, "0") is A[0] and eqrng(t, F(v, "1"), *rng(A[1])), show(v))
    # file
    for name in ("read", "read_exact"):
        k = cx.m("FileSource", name, "Source")
        for t in only(cx, R, k, cx.traces(k)):
            positioned(cx, R, k, t, off, name, lambda e: base_obj(e.args[1]) is buf)
    k = cx.m("FileSource", "get_slice", "Source")
    for t in only(cx, R, k, cx.traces(k, crc)):
        b, e = rng(A[1])
        rd = positioned(cx, R, k, t, b, "read_exact", None)
        if rd is None:
            continue
        n = mk_len(base_obj(rd.args[1]))
        v = okval(t)
        o = agg_get(v, "0") if v.op == "agg" else v
        tr = calls(t, "truncate")
        ln = tr[-1].args[1] if tr else n
        cx.ob(R, k, "buffer holds [begin,end)", base_obj(o) is base_obj(rd.args[1]) and implied(t, le(sub(e, b), n)) is not False and teq(t, ln, sub(e, b))
              and (teq(t, n, sub(e, b)) or teq(t, n, add(sub(e, b), c(4)))), "read %s bytes, kept %s" % (show(n), show(ln)))
    k = cx.m("FileSource", "cut", "Source")
    for t in only(cx, R, k, cx.traces(k, crc)):
        b, e = rng(A[1])
        v = okval(t)
        if F(v, "0") is A[0]:
            cx.ob(R, k, "same source", eqrng(t, F(v, "1"), b, e), show(v))
            continue
        rb, re_ = rng(F(v, "1"))
        cx.ob(R, k, "re-based region", teq(t, rb, c(0)) and teq(t, re_, sub(e, b)), show(F(v, "1")))
        maps = calls(t, "MmapOptions::map")
        if maps:
            of = [x for x in t.calls("MmapOptions::offset")]
            ln = [x for x in t.calls("MmapOptions::len")]
            cx.ob(R, k, "map", len(of) == 1 and teq(t, of[0].args[1], b) and len(ln) == 1 and (teq(t, ln[0].args[1], sub(e, b)) or teq(t, ln[0].args[1], add(sub(e, b), c(4))))
                  and contains(base_obj(F(v, "0")), lambda x: x is maps[0].res), "mmap offset %s len %s" % (of and show(of[0].args[1]), ln and show(ln[0].args[1])))
        else:
            rds = [x for x in t.calls(re.compile(r"Read::(read_to_end|read_exact)$"))]
            takes = calls(t, "Read::take")
            sk = calls(t, "Seek::seek")
            ok = len(rds) == 1 and len(sk) == 1 and seek_to(t, sk[0], b)
            n = None
            if ok and rds[0].name.endswith("read_to_end"):
                ok = len(takes) == 1
                n = takes[0].args[1] if ok else None
            elif ok:
                n = mk_len(base_obj(rds[0].args[1]))
            cx.ob(R, k, "copy", ok and base_obj(F(v, "0")) is base_obj(rds[0].args[1]) and (teq(t, n, sub(e, b)) or teq(t, n, add(sub(e, b), c(4)))), "reads %s" % (n is not None and show(n)))
    # background decoder
    raw = lambda v: v.op == "call" and v.a[0].endswith("from_raw_parts") and v.a[1][0] is F(A[0], "buffer") or (v.op == "call" and v.a[0].endswith("decoded_slice"))
    k = cx.m("SeekableDecoder", "read", "Source")
    for t in only(cx, R, k, cx.traces(k, ["decode_to"])):
        cs = calls(t, "Read::read")
        ok = len(cs) == 1 and cs[0].args[0].op == "slice" and raw(cs[0].args[0].a[0]) and teq(t, cs[0].args[0].a[1], off) and base_obj(cs[0].args[1]) is buf
        cx.ob(R, k, "read", ok, repr(cs))
        wait_for(cx, R, k, t, mk("min", *sorted((add(off, mk_len(buf)), F(A[0], "total_size")), key=lambda x: x.id)))
    k = cx.m("SeekableDecoder", "read_exact", "Source")
    for t in only(cx, R, k, cx.traces(k, ["decode_to"])):
        cs = calls(t, "copy_from_slice")
        ok = len(cs) == 1 and base_obj(cs[0].args[0]) is buf and cs[0].args[1].op == "slice" and raw(cs[0].args[1].a[0]) and teq(t, cs[0].args[1].a[1], off) and teq(t, cs[0].args[1].a[2], add(off, mk_len(buf)))
        cx.ob(R, k, "copies [offset, offset+len)", ok, repr(cs))
        wait_for(cx, R, k, t, add(off, mk_len(buf)))
    k = cx.m("SeekableDecoder", "get_slice", "Source")
    for t in only(cx, R, k, cx.traces(k, ["decode_to"])):
        v = okval(t)
        s = agg_get(v, "0") if v.op == "agg" else v
        b, e = rng(A[1])
        cx.ob(R, k, "slice", s.op == "slice" and raw(s.a[0]) and teq(t, s.a[1], b) and teq(t, s.a[2], e), show(v))
        wait_for(cx, R, k, t, e)
    k = cx.m("SeekableDecoder", "cut", "Source")
    for t in only(cx, R, k, cx.traces(k)):
        v = okval(t)
        cx.ob(R, k, "same source and region", F(v, "0") is A[0] and eqrng(t, F(v, "1"), *rng(A[1])), show(v))


def r_sizes(cx):
    R = "size"
    cx.rule(R, "a file is as long as its end says, a buffer as its length, a decoder as what it decodes to; a reader made of a source covers all of it, from its first byte")
    k = cx.m("FileSource", "size", "Source")
    n = 0
    for t in only(cx, R, k, cx.traces(k)):
        ln = t.val
        for k2, file_ in ((cx.m("FileSource", "new", ""), lambda x: x is A[0]),
                          (cx.m("FileSource", "open", ""), lambda x: x.op == "pl" and x.a[0].op == "call" and x.a[0].a[0].endswith("File::open") and x.a[0].a[1][0] is A[0])):
            for u in oks(cx.traces(k2)):
                n += 1
                got = newfld(ln, A[0], okval(u))
                src = got.a[0] if got.op == "pl" and got.a[0].op == "call" else got
                if src.op == "call" and re.search(r"seek$", src.a[0]) and len(src.a[1]) == 2:
                    w = src.a[1][1]
                    cx.ob(R, k2, "as long as the file", file_(base_obj(src.a[1][0])) and isagg(w, variant="End") and agg_get(w, "0") is c(0), "the length is %s" % show(got))
                elif contains(got, lambda x: x.op == "call" and re.search(r"[mM]etadata(::len)?$|stream_len$", x.a[0])):
                    cx.ob(R, k2, "as long as the file", src.op == "call" and src.a[0].endswith(("len",)) and contains(src, file_), "the length is %s" % show(got))
                else:
                    cx.ob(R, k2, "as long as the file", not not_the_length(got, file_), "the length is %s" % show(got))
                    raise Anchor("%s: the length of a file: %s" % (k2, show(got)))
    if not n:
        raise Anchor("no file opened")
    k = cx.m("T", "size", "Source")
    for t in only(cx, R, k, cx.traces(k)):
        cx.ob(R, k, "size of a buffer", teq(t, t.val, mk_len(A[0])), show(t.val))
    k = cx.m("SeekableDecoder", "size", "Source")
    for t in only(cx, R, k, cx.traces(k)):
        cx.ob(R, k, "size of what is decoded", t.val is F(A[0], "total_size"), show(t.val))
    k = cx.m("Reader", "new", "")
    for t in only(cx, R, k, cx.traces(k)):
        cx.ob(R, k, "all of the source", F(t.val, "source") is A[0] and eqrng(t, F(t.val, "region"), c(0), A[1]), show(t.val))
    for k in cx.keys(r"reader::Reader as core::convert::From<(T|[\w:]*FileSource)>>::from"):
        for t in only(cx, R, k, cx.traces(k, stop=[r"Source>?::size$", r"FileSource as [\w:]*Source>::size$"])):
            sz = calls(t, re.compile(r"::size$"))
            if len(sz) != 1:
                raise Anchor("%s: the size of the source" % k)
            cx.ob(R, k, "all of the source", F(t.val, "source") is A[0] and base_obj(sz[0].args[0]) is A[0] and eqrng(t, F(t.val, "region"), c(0), sz[0].res), show(t.val))


def newfld(expr, obj, val):
    """what `expr`, stated on `obj`, is on `val`"""
    return val if expr is obj else fld(newfld(expr.a[0], obj, val), expr.a[1]) if expr.op == "fld" else expr


def not_the_length(x, file_):
    return x.op == "c" or (x.op == "lin" and contains(x, lambda y: y.op == "call" and re.search(r"seek$", y.a[0])))


def is_slice(t, s, base, b, e):
    if s.op == "slice":
        return base_obj(s.a[0]) is base and teq(t, s.a[1], b) and teq(t, s.a[2], e)
    return s is base and teq(t, b, c(0)) and teq(t, e, mk_len(base))


def seek_to(t, e, off):
    a = e.args[1]
    return isagg(a, variant="Start") and teq(t, agg_get(a, "0"), off)


def positioned(cx, R, k, t, off, op, argok):
    """the only file operations are seek(Start(off)) then `op`, on one and the same locked file"""
    ops = [e for e in flat(t.effs) if e.kind == "call" and (match(e, re.compile(r"(Seek::\w+|Read::\w+|Write::\w+|BufRead::\w+)$")))]
    at = [e for e in ops if re.search(r"(read_at|read_exact_at)$", e.name)]
    ok = len(ops) == 2 and ops[0].name.endswith("Seek::seek") and seek_to(t, ops[0], off) and ops[1].name.endswith("Read::" + op) and base_obj(ops[0].args[0]) is base_obj(ops[1].args[0])
    ok = ok and base_obj(ops[0].args[0]).op == "locked" and (argok is None or argok(ops[1]))
    cx.ob(R, k, "%s at %s" % (op, "offset"), ok, repr(ops))
    return ops[1] if ok else None


def wait_for(cx, R, k, t, end):
    cs = list(t.calls("decode_to"))
    cx.ob(R, k, "waits for the bytes", len(cs) >= 1 and all(teq(t, x.args[1], end) for x in cs), repr(cs))


def r_parser(cx):
    R = "slice-parser"
    cx.rule(R, "a SliceParser hands out slice[cursor, cursor+n) and advances by n; out-of-slice is an error and moves nothing")
    s = A[0]
    cur, sl = F(s, "offset"), F(s, "slice")
    for name, n in (("read_slice", A[1]), ("skip", A[1]), ("read_data", mk_len(A[1]))):
        k = cx.m("SliceParser", name, "Parser")
        for t in only(cx, R, k, cx.traces(k)):
            fin = final(t, s)
            cx.ob(R, k, "cursor", teq(t, F(fin, "offset"), add(cur, n)), "cursor becomes %s" % show(F(fin, "offset")))
            if name == "read_slice":
                v = okval(t)
                v = agg_get(v, "0") if v.op == "agg" else v
                cx.ob(R, k, "slice", is_slice(t, v, sl, cur, add(cur, n)), show(v))
            if name == "read_data":
                cs = calls(t, "copy_from_slice")
                cx.ob(R, k, "copy", len(cs) == 1 and base_obj(cs[0].args[0]) is A[1] and is_slice(t, cs[0].args[1], sl, cur, add(cur, n)), repr(cs))
            cx.ob(R, k, "bounded", implied(t, le(add(cur, n), mk_len(sl))), "success although cursor+n may pass the end of the slice")
        for t in errs(cx.traces(k)):
            cx.ob(R, k, "error moves nothing", teq(t, F(final(t, s), "offset"), cur), show(final(t, s)))
    k = cx.m("SliceParser", "global_offset", "Parser")
    for t in only(cx, R, k, cx.traces(k)):
        cx.ob(R, k, "global_offset", teq(t, t.val, add(F(s, "global_offset"), cur)), show(t.val))


RULES = [("region-cut", r_region), ("view", r_views), ("conversion", r_conversions), ("stream", r_stream), ("reader", r_reader),
         ("source", r_sources), ("slice-parser", r_parser), ("size", r_sizes)]
