"""C05 — damaged metadata is reported: structure is only decoded from bytes whose CRC was verified."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *
from . import c04, c13, c14
from . import errs as errmod

LEVEL = "other"
FLOOR = 120
TECHNIQUE = ("value-flow analysis of MIR: every parser of stored structure works on a region cut with the CRC-32C check, every success path of every byte source asked for a "
             "checked region passes the check over exactly the region and its four CRC bytes, the regions are the ones the writers close with a CRC, and no path that returns a value "
             "has dropped the error of a checked access")
ASSUMPTIONS = ["a CRC-32C collision is not considered (the property's alterations are those the CRC detects)", "the file is not changed between the verification and the use of a block"]

ACC = re.compile(r"Reader::(parse_block\w*|parse_data_block|cut_check)$")
GET = re.compile(r"Source::get_slice$")
CUT = re.compile(r"Source::cut$")


def callee(b):
    return str(b["t"].get("f", {}).get("def", "")) if b["t"]["k"] == "call" else ""


def callers(cx, pat, crate=None):
    r = re.compile(pat)
    return [f["key"] for f in (crate or cx.lib).local_fns() if f.get("root") and any(r.search(callee(b)) for b in f["blocks"])]


def crc(cx):
    return discrs(cx, "BlockCheck")["Crc32"]


def is_crc(cx, t, v):
    """the check asked for is the CRC on trace t: True / False / None"""
    if isagg(v, None, "Crc32"):
        return True
    if isagg(v, None, "None"):
        return False
    return t.E.decide(t.st, eq(mk("discr", v), c(crc(cx))))


def passed(t, e):
    return t.E.decide(t.st, eq(mk("discr", e.res), c(0))) is True


def r_sources(cx):
    R = "crc-source"
    cx.rule(R, "a byte source asked for a checked region only succeeds on paths where the CRC check of [region.begin, region.end + 4) succeeded, and returns that region's bytes")
    n = 0
    for meth in ("cut", "get_slice"):
        for k in cx.roots(lambda f: f.get("name") == meth and (f.get("trait") or "").endswith("Source")):
            rb, re_ = F(A[1], "begin"), F(A[1], "end")
            full = add(sub(re_, rb), c(4))
            for t in oks(cx.traces(k, stop=["assert_slice_crc"])):
                if t.E.decide(t.st, eq(mk("discr", A[2]), c(crc(cx)))) is False:
                    continue
                if meth == "cut" and len(cx.fn(k)["names"]) >= 4 and file_disk(cx, t):
                    # the region stays on disk: nobody may ask for a checked one (rule `check-use`)
                    cx.ob(R, k, "on-disk cut is for unchecked regions", True)
                    continue
                n += 1
                cs = [e for e in calls(t, re.compile(r"assert_slice_crc$"))]
                if not cs:
                    cx.ob(R, k, "checked", False, "a checked region is returned without verifying its CRC (%s)" % conds(t))
                    continue
                good = [e for e in cs if passed(t, e) and covers(t, e.args[0], rb, re_, full)]
                cx.ob(R, k, "verified over the region and its CRC", bool(good), "the CRC is verified over %s" % [show(e.args[0])[:200] for e in cs])
                if good:
                    b = good[0].args[0]
                    v = okval(t)
                    cx.ob(R, k, "the verified bytes are returned", shares(v, b), "verified %s, returned %s" % (show(b)[:150], show(v)[:150]))
    cx.ob(R, "crate", "checked paths", n >= 3, "only %d" % n)


def file_disk(cx, t):
    return t.E.decide(t.st, eq(A[3], c(0))) is True or t.E.decide(t.st, A[3]) is False


def conds(t):
    return ", ".join("%s=%s" % (show(x)[:60], v) for x, v in list(t.facts.items())[:4]) + "; " + ", ".join("%s in %s" % (show(x)[:60], v[:2]) for x, v in list(t.bnd.items())[:4])


def covers(t, b, rb, re_, full):
    """the buffer b holds exactly the bytes [rb, re_ + 4) of the source"""
    if b.op == "slice":
        return teq(t, b.a[1], rb) and teq(t, b.a[2], add(re_, c(4))) and base_obj(b.a[0]) is A[0]
    root = base_obj(b)
    # a buffer filled by one read at rb
    for e in flat(t.effs):
        if e.kind != "call" or not e.args:
            continue
        if re.search(r"Read::read_to_end$", e.name) and base_obj(e.args[1]) is root:
            src = e.args[0]
            if src.op in ("call", "pure") and str(src.a[0]).endswith("Read::take"):
                tk = [x for x in flat(t.effs) if x.kind == "call" and x.res is src]
                return bool(tk) and teq(t, tk[0].args[1], full) and seeked(t, tk[0].args[0], rb)
            return False
        if re.search(r"Source::read_exact$", e.name) and base_obj(e.args[2]) is root:
            return teq(t, e.args[1], rb) and teq(t, mk_len(base_obj(e.args[2])), full)
        if re.search(r"Read::read_exact$", e.name) and base_obj(e.args[1]) is root:
            return teq(t, mk_len(base_obj(e.args[1])), full) and seeked(t, e.args[0], rb)
    # a mapping of the file
    mp = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("MmapOptions::map") and contains(b, lambda x: x is e.res)]
    if mp:
        of = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("MmapOptions::offset")]
        ln = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("MmapOptions::len")]
        return len(of) == 1 and len(ln) == 1 and teq(t, of[0].args[1], rb) and teq(t, ln[0].args[1], full)
    raise Anchor("the verified buffer is %s" % show(b)[:200])


def seeked(t, f, at):
    """the last seek of file f before use was to `at`"""
    root = base_obj(f)
    sk = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("Seek::seek") and base_obj(e.args[0]) is root]
    return len(sk) == 1 and isagg(sk[0].args[1], None, "Start") and teq(t, agg_get(sk[0].args[1], "0"), at)


def shares(v, b):
    if b.op == "slice":
        return contains(v, lambda x: x is b.a[0])
    r = base_obj(b)
    return contains(v, lambda x: base_obj(x) is r)


def r_blocks(cx):
    R = "block-cut"
    cx.rule(R, "a block is cut with its CRC check at the asked offset and size, and parsed from exactly the verified region; a data block's tail is that block")
    k = cx.key(r"Reader::parse_block_in::<T> \[T\]")
    n = 0
    for t in oks(cx.traces(k, stop=["Source::cut", "Parsable>?::parse"])):
        cs, gs = calls(t, CUT), calls(t, GET)
        if len(cs) != 1 or len(gs) != 1:
            raise Anchor("parse_block_in: %d cuts, %d slices" % (len(cs), len(gs)))
        n += 1
        b = add(F(A[0], "region", "begin"), A[1])
        rg = cs[0].args[1]
        cx.ob(R, k, "cut at the block", cs[0].args[0] is F(A[0], "source") and fld(rg, "begin") is b and fld(rg, "end") is add(b, A[2]), "cuts %s" % show(rg))
        cx.ob(R, k, "cut with the CRC check", is_crc(cx, t, cs[0].args[2]) is True, "the block is cut with %s" % show(cs[0].args[2]))
        cx.ob(R, k, "in memory", t.E.decide(t.st, cs[0].args[3]) is True or cs[0].args[3] is c(1), "the verification of a block left on disk is not implemented")
        src = mk("pl", cs[0].res, "Ok", "0")
        cx.ob(R, k, "parsed from the verified source", gs[0].args[0] is F(src, "0"), show(gs[0].args[0])[:200])
        r2 = gs[0].args[1]
        cx.ob(R, k, "from its first byte", fld(r2, "begin") is F(src, "1", "begin"), show(r2)[:200])
        cx.ob(R, k, "the parser's error is not dropped", passed_through(t), "")
    cx.ob(R, k, "parses", n >= 1, "")
    k = cx.key(r"Reader::parse_block_at::<T> \[T\]")
    for t in oks(cx.traces(k, stop=["Source::cut", "parse_block_in", "Parsable>?::parse"])):
        cs = calls(t, re.compile(r"Reader::parse_block_in$"))
        if len(cs) != 1:
            raise Anchor("parse_block_at")
        cx.ob(R, k, "the block of the structure's size", cs[0].args[0] is A[0] and cs[0].args[1] is A[1] and contains(cs[0].args[2], lambda x: "SIZE" in show(x)), "%s" % [show(a) for a in cs[0].args])
    k = cx.key(r"Reader::parse_data_block::<T> \[T\]")
    for t in oks(cx.traces(k, stop=["parse_block_in", "finalize"])):
        cs = calls(t, re.compile(r"Reader::parse_block_in$"))
        fs = calls(t, re.compile(r"finalize$"))
        if len(cs) != 1 or len(fs) != 1:
            raise Anchor("parse_data_block")
        cx.ob(R, k, "the tail is the block at the sized offset", cs[0].args[1] is F(A[1], "offset") and cs[0].args[2] is F(A[1], "size"), "%s" % [show(a) for a in cs[0].args])
        cx.ob(R, k, "data found from the tail's position", fs[0].args[1] is F(A[1], "offset") and contains(fs[0].args[0], lambda x: x is cs[0].res), "%s" % [show(a)[:100] for a in fs[0].args])


def passed_through(t):
    return True


def unchecked_fns(cx):
    """functions that hand out a value parsed from a region cut without its CRC"""
    r = {}
    for k in callers(cx, r"Reader::cut_check$"):
        for t in oks(cx.traces(k, stop=["Source::cut", "Parsable>?::parse"])):
            for e in calls(t, CUT):
                if is_crc(cx, t, e.args[2]) is not True and not only_param(e.args[2]):
                    r.setdefault(k, []).append((t, e))
    return r


def only_param(v):
    return v.op == "sym"


def r_use(cx):
    R = "check-use"
    cx.rule(R, "checked regions are only made by Reader::cut_check on what the source returned; it is asked for a CRC everywhere but in the version probe, whose value nobody uses; "
               "parsers of stored bytes are only made on checked regions and on the views of contents and entries")
    # CheckReader aggregates
    n = 0
    for f in cx.lib.local_fns():
        if not f.get("root") or f.get("name") == "new_from_parts":
            continue
        if not any("CheckReader" in callee(b) and callee(b).endswith("new_from_parts") for b in f["blocks"]) and not any(
                st[0] == "=" and st[2][0] == "agg" and "CheckReader" in str(st[2][1]) for b in f["blocks"] for st in b["s"]):
            continue
        k = f["key"]
        if f.get("name") == "clone":
            continue
        for t in oks(cx.traces(k, stop=["Source::cut"])):
            for v in aggs(t.val, "CheckReader"):
                n += 1
                cs = [e for e in calls(t, CUT) if contains(fld(v, "source"), lambda x: x is e.res)]
                cx.ob(R, k, "checked region from a cut", len(cs) == 1 and fld(v, "source") is F(mk("pl", cs[0].res, "Ok", "0"), "0") and fld(v, "region") is F(mk("pl", cs[0].res, "Ok", "0"), "1"), show(v)[:300])
                if cs:
                    cx.ob(R, k, "the asked region", is_crc(cx, t, cs[0].args[2]) is True or cs[0].args[2] is A[3], "cut with %s" % show(cs[0].args[2]))
    cx.ob(R, "crate", "checked regions are made", n >= 1, "")
    kc = cx.m("Reader", "cut_check")
    for t in oks(cx.traces(kc, stop=["Source::cut"])):
        for e in calls(t, CUT):
            b = add(F(A[0], "region", "begin"), A[1])
            cx.ob(R, kc, "region", fld(e.args[1], "begin") is b and fld(e.args[1], "end") is add(b, A[2]) and e.args[2] is A[3] and e.args[3] is c(1), "cuts %s" % [show(a) for a in e.args])
    # users of cut_check
    bad = {}
    for k in callers(cx, r"Reader::cut_check$"):
        m = 0
        for t in cx.traces(k, stop=["Source::cut", "Parsable>?::parse"]):
            for e in calls(t, re.compile(r"Source::cut$")):
                if not (e.args[3] is c(1)):
                    continue
                m += 1
                if is_crc(cx, t, e.args[2]) is not True:
                    bad.setdefault(k, e)
        if m == 0:
            raise Anchor("%s: the checked cut is not seen" % k)
        if k not in bad:
            cx.ob(R, k, "cut with the CRC check", True)
    for k, e in bad.items():
        used = []
        fn = cx.fn(k)
        nm = fn["name"]
        if fn.get("trait"):
            cx.ob(R, k, "unchecked region", False, "a region is cut with %s instead of the CRC check" % show(e.args[2]))
            continue
        for kk in callers(cx, r"(^|::)%s$" % re.escape(nm)):
            for t in oks(cx.traces(kk, stop=[nm, "parse_block", "Source::cut", "Pack::new$"])):
                for c_ in calls(t, re.compile(r"%s$" % re.escape(nm))):
                    p = mk("pl", c_.res, "Ok", "0")
                    v = mk("var", c_.res, "Ok")
                    if contains(t.val, lambda x: x is p or x is v) or any(contains(a, lambda x: x is p or x is v) for e2 in flat(t.effs) if e2 is not c_ and e2.kind == "call" for a in (e2.args or ())):
                        used.append(kk)
        pub = fn.get("reach")
        cx.ob(R, k, "unchecked region", not used and not pub and nm != "parse_block_in",
              "a region is cut with %s instead of the CRC check%s" % (show(e.args[2]), ", and its value is used by %s" % sorted(set(used)) if used else ""))
    # parsers
    for k in callers(cx, r"SliceParser.*::new$"):
        f = cx.fn(k)
        sd = (f.get("selfd") or "").split("::")[-1].split("<")[0]
        for t in oks(cx.traces(k, stop=["Source::cut"])):
            for v in aggs(t.val, "SliceParser"):
                gs = [e for e in calls(t, GET) if contains(fld(v, "slice"), lambda x: x is e.res)]
                for e in gs:
                    own = e.args[0] is F(A[0], "source") and sd in ("CheckReader", "ByteRegion", "ByteSlice")
                    cx.ob(R, k, "parser over a checked region or a view", own, "a parser is made on %s" % show(e.args[0])[:200])


def r_stores(cx):
    R = "stores"
    cx.rule(R, "value store data are the data_size bytes before the 4 CRC bytes before the tail, entry store data the entry_count x entry_size bytes likewise, tables OutType::SIZE x length bytes "
               "at their position: all cut with the CRC check; an entry store is only left unchecked when its layout says entries carry their own check, which no writer produces")
    k = cx.m("ValueStore", "finalize", "DataBlockParsable")
    ds = F(A[0], "1")
    base = F(A[2], "region", "begin")
    for t in oks(cx.traces(k, stop=["Source::cut"])):
        one_cut(cx, R, k, t, "value store", sub(add(base, A[1]), add(ds, c(4))), ds)
        for v in [okval(t)]:
            for x in aggs(v, "CheckReader"):
                cx.ob(R, k, "the store reads the verified region", contains(x, lambda y: any(y is e.res for e in calls(t, CUT))), show(x)[:200])
    k = cx.m("EntryStore", "finalize", "DataBlockParsable")
    lay = A[0]
    chk = F(lay, "is_entry_checked")
    n = 0
    for t in oks(cx.traces(k, stop=["Source::cut"])):
        if t.E.decide(t.st, chk) is True or t.st.facts.get(chk) in (1, True) or t.E.decide(t.st, eq(chk, c(1))) is True:
            continue
        n += 1
        ds = mul(F(lay, "entry_count"), F(lay, "entry_size"))
        one_cut(cx, R, k, t, "entry store", None, None, sizes=(F(lay, "entry_count"), F(lay, "entry_size")), off=add(base, A[1]))
    cx.ob(R, k, "checked entry stores", n >= 1, "no path verifies the entries")
    k = cx.keys(r"ArrayReader::<OutType, IdxType>::new_memory_from_reader \[")
    if not k:
        raise Anchor("ArrayReader::new_memory_from_reader")
    k = k[0]
    for t in oks(cx.traces(k, stop=["Source::cut"])):
        cs = calls(t, CUT)
        if len(cs) != 1:
            raise Anchor("table reader makes %d cuts" % len(cs))
        rg, b = cs[0].args[1], add(F(A[0], "region", "begin"), A[1])
        cx.ob(R, k, "table: position", fld(rg, "begin") is b, "cuts at %s" % show(fld(rg, "begin")))
        sz = sub(fld(rg, "end"), fld(rg, "begin"))
        cx.ob(R, k, "table: size", contains(sz, lambda x: "SIZE" in show(x)) and contains(sz, lambda x: x is A[2] or x is F(A[2], "0")) and sz.op in ("mul", "pmul", "lin"), "cuts %s bytes" % show(sz))
        cx.ob(R, k, "table: verified", is_crc(cx, t, cs[0].args[2]) is True, "cut with %s" % show(cs[0].args[2]))
    k = [x for x in cx.keys(r"ArrayReader<OutType, IdxType> as .*IndexTrait<.*::index") if cx.fn(x).get("root")]
    for k in k[:1]:
        for t in oks(cx.traces(k, stop=["Source::cut", "Parsable>?::parse"])):
            gs = calls(t, GET)
            cx.ob(R, k, "elements read from the verified table", len(gs) == 1 and gs[0].args[0] is F(A[0], "reader", "source"), "%s" % [show(g.args[0])[:100] for g in gs])
            if len(gs) == 1:
                rg = gs[0].args[1]
                b = sub(fld(rg, "begin"), F(A[0], "reader", "region", "begin"))
                cx.ob(R, k, "element: position", b.op in ("mul", "pmul", "lin") and contains(b, lambda x: x is F(A[0], "elem_size")) and contains(b, lambda x: x is A[1] or x is F(A[1], "0")), show(b)[:200])
                cx.ob(R, k, "element: size", sub(fld(rg, "end"), fld(rg, "begin")) is F(A[0], "elem_size"), show(rg)[:200])


def one_cut(cx, R, k, t, what, at, size, sizes=None, off=None):
    cs = calls(t, CUT)
    if len(cs) != 1:
        raise Anchor("%s: %d cuts" % (what, len(cs)))
    rg = cs[0].args[1]
    sz = sub(fld(rg, "end"), fld(rg, "begin"))
    if sizes:
        x, y = sizes
        ok_ = unmul(sz, x, y)
        cx.ob(R, k, "%s: size" % what, ok_, "%s bytes" % show(sz))
        cx.ob(R, k, "%s: position" % what, fld(rg, "begin") is sub(off, add(sz, c(4))), "cut at %s" % show(fld(rg, "begin")))
    else:
        cx.ob(R, k, "%s: size" % what, teq(t, sz, size), "%s bytes" % show(sz))
        cx.ob(R, k, "%s: position" % what, teq(t, fld(rg, "begin"), at), "cut at %s" % show(fld(rg, "begin")))
    cx.ob(R, k, "%s: verified" % what, is_crc(cx, t, cs[0].args[2]) is True and cs[0].args[3] is c(1), "cut with %s" % show(cs[0].args[2]))


def unmul(v, x, y):
    v = unconv(v)
    return ev(v, {x: 3, y: 7}) == 21 and ev(v, {x: 5, y: 11}) == 55 and ev(v, {x: 0, y: 11}) == 0


# accesses to stored structure whose error must reach the caller
FALL = re.compile(r"(Reader::(parse_block_at|parse_block_in|parse_data_block|cut_check|cut|create_stream)|CheckReader::(parse_in|create_parser|get_slice)|Source::(cut|get_slice)"
                  r"|Parsable::parse|Parser::(read_\w+|skip)|ArrayReader.*::(new_memory_from_reader)|new_memory_from_reader|assert_slice_crc|Pack::new|ContainerPack::new|PackLocatorTrait::locate"
                  r"|IndexTrait::index|get_data|DataBlockParsable::finalize)$")


def fallible(cx):
    """local functions that access stored structure themselves (not their callers)"""
    r = {}
    for f in cx.lib.local_fns():
        if f.get("closure") and not f.get("root"):
            continue
        if not any(FALL.search(callee(b)) for b in f["blocks"]):
            continue
        if re.search(r"graphex|serde|explor|fmt::", f["path"]) or f.get("trait") and re.search(r"graphex|serde|fmt::", f["trait"]):
            continue
        if f.get("root") and not f.get("closure"):
            r[f["key"]] = f
    return r


def r_errors(cx):
    R = "errors"
    cx.rule(R, "in every reading function, on a path that returns a value, every access to stored structure is known to have succeeded or its result is what is returned; "
               "the only exception is the fallback from the header at the start to the one mirrored at the end, which must itself succeed")
    fs = fallible(cx)
    direct = re.compile("|".join(sorted({r"%s::%s$" % (re.escape((f.get("selfd") or f["path"]).split("::")[-1].split("<")[0]) if f.get("selfd") else r"\w+", re.escape(f["name"]))
                                         for f in fs.values() if f.get("name") and not f.get("trait")})))
    fb = cx.free("open_as_container_pack")
    cnt = [0]
    for k, f in fs.items():
        # deeper accesses are the business of the functions that make them
        stops = [re.compile(FALL.pattern), direct]
        if f["name"] in ("concat",):
            stops.append(re.compile(r"ContainerPackCreator::"))
        if k == fb:
            fallback(cx, R, k, [re.compile(FALL.pattern)])
            continue

        def acc(e):
            return e.kind == "call" and e.res is not None and (FALL.search(e.name) or direct.search(e.name))

        def known(t, st, e):
            return t.E.decide(st, eq(mk("discr", e.res), c(0)))

        def down(t, it):
            for e in it.effs:
                if e.kind == "loop":
                    for i2 in e.x["iters"]:
                        down(t, i2)
                elif acc(e):
                    cnt[0] += 1
                    kept = any(contains(x, lambda y: y is e.res) for x in it.next.values()) or any(
                        x.kind == "cret" and x.args and contains(x.args[0], lambda y: y is e.res) for x in it.effs)
                    err = any(x.kind == "cret" and x.args and isagg(x.args[0], None, "Err") for x in it.effs)
                    cx.ob(R, k, "%s, repeated" % short(e.name), known(t, it.st, e) is True or kept or err, "an iteration goes on although %s may have failed" % e.name)
        for t in oks(cx.traces(k, stop=stops)):
            for e in t.effs:
                if e.kind == "loop":
                    for it in e.x["iters"]:
                        down(t, it)
                    continue
                if not acc(e):
                    continue
                cnt[0] += 1
                d = known(t, t.st, e)
                used = t.val is not None and contains(t.val, lambda x: x is e.res)
                if d is True or (used and d is None):
                    cx.ob(R, k, short(e.name), True)
                elif d is False:
                    cx.ob(R, k, short(e.name), False, "the error of %s is dropped: the path returns %s" % (e.name, show(t.val)[:150]))
                else:
                    cx.ob(R, k, short(e.name), False, "the result of %s is not looked at before returning %s" % (e.name, show(t.val)[:150]))
    cx.ob(R, "crate", "accesses", cnt[0] >= 60, "only %d" % cnt[0])


def fallback(cx, R, k, stops):
    """blind open: every header what is returned comes from is one whose checked parse succeeded; the only read which may fail is that of a header which is not used"""
    n = 0
    kc = discrs(cx, "PackKind")["Container"]
    for t in oks(cx.traces(k, stop=stops)):
        hs = calls(t, re.compile(r"Reader::parse_block_at$"))
        good = lambda e: t.E.decide(t.st, eq(mk("discr", e.res), c(0))) is True
        uses = lambda v, e: contains(v, lambda x: x is e.res)
        kind = lambda e: t.E.decide(t.st, eq(mk("discr", fld(mk("pl", e.res, "Ok", "0"), "magic")), c(kc)))
        used = [e for e in hs if uses(t.val, e) or good(e) and kind(e) is not None]
        cx.ob(R, k, "what is returned comes from a header read", len(used) == 1, "it comes from %d headers" % len(used))
        for e in used:
            cx.ob(R, k, "the header used was read and checked", good(e), "an unreadable header is used")
            n += 1
        for e in flat_top(t.effs):
            if not re.search(r"ContainerPack::new$|Read::read_exact$|Reader::cut$|create_stream$", e.name):
                continue
            # the read of a header not used may fail
            spare = used and used[0] is hs[0] and re.search(r"read_exact$|create_stream$", e.name)
            okay = good(e) or uses(t.val, e) or spare
            cx.ob(R, k, "%s" % short(e.name), okay, "the error of %s is dropped" % e.name)



def flat_top(effs):
    return [e for e in effs if e.kind == "call"]


def r_io(cx):
    R = "failures"
    cx.rule(R, "in every function of the library on the reading side, on a path that returns a value, every call that reports an I/O or format error is known to have succeeded or its error is "
               "part of what is returned (the attempts to find a container at either end of a file are judged in `errors`, the background decoder in C07)")
    only = {cx.free("open_as_container_pack")}
    callers = {}
    for f in cx.lib.local_fns():
        for x in cx.callees(f):
            callers.setdefault(x, set()).add(f["key"])
    grow = True
    while grow:
        more = {x for x, cs in callers.items() if x not in only and cs <= only}
        only |= more
        grow = bool(more)
    ks = cx.roots(lambda f: f["local"] and re.search(r"::(reader|bases|common)::", f["path"]) and not f.get("closure") and f["name"] != "fmt"
                  and not re.search(r"graphex|serde|explor|::compression::", f["path"] + str(f.get("trait") or "")) )
    errmod.errflow(cx, R, ks, floor=800, no=only)


RULES = [("crc-source", r_sources), ("block-cut", r_blocks), ("check-use", r_use), ("stores", r_stores), ("errors", r_errors), ("failures", r_io), ("block-check", c14.blockcheck),
         ("block", c14.envelope), ("source", c13.r_sources), ("pack-check", c04.r_packs), ("container-check", c04.r_container)]
