"""C12 — rewriting a pack location changes only that location."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *
from . import manifest

LEVEL = "other"
FLOOR = 60
TECHNIQUE = ("value-flow analysis of MIR: the file position and the bytes written by set_location are compared, as terms over the parsed manifest, with the position and "
             "the bytes of the record found; the exempted bytes of the manifest checksum are compared with the location field of that record on both sides")
ASSUMPTIONS = ["std::fs::OpenOptions/File seek and write as documented", "the file is not changed by someone else between reading and writing",
               "an admissible location has at most 213 bytes"]
PSIZE = 256
LOC = 38
STOP = ("parse_block_at", "::open_pack", "get_manifest_pack_reader", "OutStream>?::ser_write", re.compile(r"open_as_container_pack|ContainerPack.*::new(_fake)?$"))


def affine(le, it, v):
    """(value at the first iteration, increment per iteration) of a term over loop variables"""
    first = rebuild(v, lambda x: le.x["init"].get(x, x))
    nxt = rebuild(v, lambda x: it.next.get(x, x))
    return first, sub(nxt, v)


def visits_all(t, le, count):
    """the loop `le`, left on trace t, ran `count` times: True / False / None"""
    its = le.x["iters"]
    for lv, i0 in le.x["init"].items():
        st = [sub(it.next.get(lv, lv), lv) for it in its]
        if st and all(s is c(1) for s in st):
            n = sub(count, c(0))
            if t.E.decide(t.st, le_(add(i0, n), lv)) is True or implied(t, eq(lv, add(i0, n))) is True:
                return True
        if st and all(s is c(-1) for s in st):
            if implied(t, eq(lv, sub(i0, count))) is True:
                return True
    return None


le_ = le


def uncount(cx, v):
    """count(PackOffsetsIter{offset, left}) = left (rule `offsets`)"""
    try:
        f = cx.field("PackOffsetsIter", r"^u16$")
    except Anchor:
        return v

    def g(x):
        if x.op == "count" and isagg(x.a[0], "PackOffsetsIter"):
            return fld(x.a[0], f)
        return x
    return rebuild(v, g)


def strip_conv(v):
    return rebuild(v, lambda x: x.a[1] if x.op == "trunc" and x.a[0] in (16, c(16)) else x)


def parsed_at(v):
    """(reader, offset) when v is the success payload of parse_block_at"""
    for x in walk(v):
        if x.op == "call" and str(x.a[0]).endswith("parse_block_at"):
            return x
    return None


def r_write(cx):
    R = "rewrite"
    cx.rule(R, "set_location opens the same file for writing in place (no truncation, no append, no creation), seeks to the position the matching record was read at "
               "(manifest begin + check_info_pos - 256*pack_count + 256*i) and writes that record back, once, with only pack_location replaced")
    k = cx.free("set_location")
    ts = [t for t in cx.traces(k, stop=STOP) if t.kind == "ret"]
    done = 0
    for t in oks(ts):
        v = okval(t)
        ef = list(flat(t.effs))
        opens = [e for e in ef if e.kind == "call" and re.search(r"OpenOptions::\w+$|fs::File::(create|create_new|open|options)$|fs::(write|remove_file|rename|copy)$|File::set_len$|set_permissions$", e.name)]
        wr = [e for e in ef if e.kind == "call" and re.search(r"(OutStream::\w+|Write::write\w*|io::copy::copy|write_all_at|write_at)$", e.name) and not re.search(r"::tell$|flush$", e.name)]
        if isagg(v, None, "None"):
            bad = [e for e in opens if not re.search(r"fs::File::open$|OpenOptions::(new|read|write|open)$", e.name)]
            cx.ob(R, k, "absent pack: nothing is written", not wr and not bad, "a write happens although Ok(None) is returned: %s" % [e.name for e in wr + bad])
            lps = [e for e in t.effs if e.kind == "loop" and any(x.kind == "call" and x.name.endswith("parse_block_at") for it in e.x["iters"] for x in flat(it.effs))]
            if len(lps) != 1:
                raise Anchor("the search over the pack infos is not one loop")
            cnt = manifest_terms(cx, t)[2]
            d = visits_all(t, lps[0], cnt)
            if d is None:
                raise Anchor("cannot tell how many records the search visits")
            cx.ob(R, k, "absent pack: every record was looked at", d, "")
            for it in lps[0].x["iters"]:
                skip_ok(cx, R, k, t, it)
            continue
        if not isagg(v, None, "Some"):
            raise Anchor("set_location returns %s" % show(v)[:200])
        done += 1
        mp, ci, cnt = manifest_terms(cx, t)
        badopt = []
        for e in opens:
            n = e.name.split("::")[-1]
            if n in ("new", "open", "options"):
                continue
            if n in ("read", "write"):
                continue
            if len(e.args) > 1 and e.args[1] is c(0):
                continue
            badopt.append("%s(%s)" % (n, ", ".join(show(a) for a in e.args[1:])))
        cx.ob(R, k, "opened in place", not badopt, "the file is opened or changed with %s" % badopt)
        op = [e for e in opens if e.name.endswith("OpenOptions::open")]
        if len(op) != 1:
            raise Anchor("file opened %d times" % len(op))
        cx.ob(R, k, "the same file", contains(op[0].args[1], lambda x: x is A[0]), "opens %s" % show(op[0].args[1]))
        sw = [e for e in wr if e.name.endswith("OutStream::ser_write")]
        cx.ob(R, k, "one record is written", len(wr) == 1, "writes: %s" % [e.name.split("::")[-1] for e in wr])
        if len(sw) != 1 or len(wr) != 1:
            if not sw:
                raise Anchor("the record is not written by ser_write")
            continue
        w = sw[0]
        rec = w.args[1]
        src = None
        for x in walk(rec):
            if x.op in ("pl",) and isinstance(x.a[0], T) and pname(x.a[0]) and x.a[1] == "Ok":
                src = x
                break
        if src is None:
            raise Anchor("the written record is not a parsed record: %s" % show(rec)[:200])
        pk = src.a[0]
        off = pk_args(t, pk)[1]
        fs = [f[0] for f in adt(cx, "PackInfo")["variants"][0]["fields"]]
        locf = cx.field("PackInfo", r"SmolStr|SmallString|String")
        for f in fs:
            g = fld(rec, f)
            if f == locf:
                cx.ob(R, k, "new location", g is A[2] or g.op in ("call", "pure") and contains(g, lambda x: x is A[2]) and not altered(g, A[2]), "the location written is %s" % show(g)[:200])
            else:
                cx.ob(R, k, "field %s kept" % f, g is fld(src, f), "%s is written as %s" % (f, show(g)[:200]))
        uf = cx.field("PackInfo", r"Uuid$")
        d = uuid_eq(t, fld(src, uf))
        if d is None:
            raise Anchor("the record is not chosen by comparing uuids")
        cx.ob(R, k, "the record of that uuid", d, "the record rewritten is one whose uuid differs")
        # position
        i_w = ef.index(w)
        sk = [e for e in ef[:i_w] if e.kind == "call" and re.search(r"Seek::seek$", e.name)]
        if not sk:
            cx.ob(R, k, "position", False, "the record is written without seeking to it")
            continue
        p = sk[-1].args[1]
        want = add(off, F(mp, "region", "begin"))
        cx.ob(R, k, "position", isagg(p, None, "Start") and teq(t, fld(p, "0"), want), "seeks to %s, the record is at %s" % (show(p)[-200:], show(want)[-200:]))
        lps = [e for e in t.effs if e.kind == "loop" and any(contains(off, lambda x: x is lv) for lv in e.x["init"])]
        if len(lps) != 1:
            raise Anchor("record offsets are not produced by one loop")
        for it in lps[0].x["iters"]:
            a, b = affine(lps[0], it, off)
            want0 = sub(ci, mulc(cnt, PSIZE))
            cx.ob(R, k, "record offsets", teq(t, a, want0) and b is c(PSIZE), "records are read at %s then every %s" % (show(a), show(b)))
            skip_ok(cx, R, k, t, it)
    cx.ob(R, k, "a rewrite path exists", done >= 1, "no path rewrites a location")


def skip_ok(cx, R, k, t, it):
    """a record passed over has another uuid"""
    uf = cx.field("PackInfo", r"Uuid$")
    for f, v in it.facts.items():
        if f.op == "eq" and any(y is A[1] for y in f.a) and any(y.op == "fld" and y.a[1] == uf for y in f.a):
            ok_ = not v
            cx.ob(R, k, "records passed over have another uuid", ok_, "a record with the wanted uuid is passed over")
            return
    if not any(contains(x, lambda y: y is A[1]) for x in list(it.facts) + list(it.bnd)) and not any(contains(a, lambda y: y is A[1]) for e in flat(it.effs) for a in e.args):
        cx.ob(R, k, "records passed over have another uuid", False, "a record is passed over without its uuid being looked at")
        return
    raise Anchor("records are not passed over by uuid")


def uuid_eq(t, u):
    for a, b in ((u, A[1]), (A[1], u)):
        d = t.E.decide(t.st, gen_eq(a, b))
        if d is None:
            d = implied(t, eq(a, b))
        if d is not None:
            return d
    return None


def pname(x):
    return x.op == "call" and "parse_block_at" in str(x.a[0]) or x.op == "pure" and "parse_block_at" in str(x.a[0])


def pk_args(t, call_term):
    for e in flat(t.effs):
        if e.kind == "call" and e.res is call_term:
            return e.args
    raise Anchor("parse call not found")


def manifest_terms(cx, t):
    """(manifest reader, check_info_pos, pack_count) as read on this trace"""
    ps = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("parse_block_at")]
    if len(ps) < 2:
        raise Anchor("the manifest headers are not parsed")
    mp = ps[0].args[0]
    h = [e for e in ps if e.args[1] is c(0)]
    m = [e for e in ps if e.args[1] is c(64)]
    if not h:
        cx.ob("rewrite", cx.free("set_location"), "pack header at 0", False, "headers are read at %s" % [show(e.args[1]) for e in ps[:2]])
        raise Anchor("pack header")
    if not m:
        cx.ob("rewrite", cx.free("set_location"), "manifest header at 64", False, "headers are read at %s" % [show(e.args[1]) for e in ps[:2]])
        raise Anchor("manifest header")
    ci = fld(mk("pl", h[0].res, "Ok", "0"), "check_info_pos")
    cnt = fld(mk("pl", m[0].res, "Ok", "0"), "pack_count")
    return mp, ci, cnt


def r_offsets(cx):
    R = "offsets"
    cx.rule(R, "the pack infos are the pack_count blocks of 256 bytes that end at check_info_pos: iterator and manifest reader")
    k = cx.m("PackOffsetsIter", "next", "Iterator")
    of, lf = cx.field("PackOffsetsIter", r"Offset$"), cx.field("PackOffsetsIter", r"^u16$")
    kinds = set()
    for t in [t for t in cx.traces(k) if t.kind == "ret"]:
        f = final(t, A[0])
        z = implied(t, eq(F(A[0], lf), c(0)))
        if isagg(t.val, None, "None"):
            kinds.add("end")
            cx.ob(R, k, "ends when nothing is left", z is True, "iteration ends although records are left")
        else:
            kinds.add("some")
            cx.ob(R, k, "one record per count", z is False and fld(f, lf) is sub(F(A[0], lf), c(1)), "left becomes %s" % show(fld(f, lf)))
            cx.ob(R, k, "step", fld(t.val, "0") is F(A[0], of) and fld(f, of) is add(F(A[0], of), c(PSIZE)), "yields %s, next is %s" % (show(t.val), show(fld(f, of))))
    cx.ob(R, k, "both outcomes", kinds == {"end", "some"}, str(kinds))
    k = cx.m("PackOffsetsIter", "new")
    for t in oks(cx.traces(k)):
        v = okval(t)
        cx.ob(R, k, "starts pack_count blocks before the check info", strip_conv(fld(v, of)) is sub(A[0], mulc(A[1], PSIZE)), "starts at %s" % show(fld(v, of)))
        cx.ob(R, k, "count", strip_conv(fld(v, lf)) is A[1], "counts %s" % show(fld(v, lf)))


def bounded(t, n, limit):
    if n.op == "min":
        return any(bounded(t, x, limit) for x in n.a)
    return n is limit or implied(t, le(n, limit)) is True


def mask_fields(cx):
    """fields of ManifestCheckStream by the value `new` gives them"""
    k = cx.m("ManifestCheckStream", "new")
    r = {}
    for t in oks(cx.traces(k)):
        v = okval(t)
        if not isagg(v, "ManifestCheckStream"):
            raise Anchor("ManifestCheckStream::new")
        for f, x in agg_items(v):
            y = strip_conv(x)
            if y is c(0):
                r["cur"] = f
            elif y is A[1]:
                r["first"] = f
            elif y is add(A[1], mulc(A[2], PSIZE)):
                r["end"] = f
            elif y is A[0]:
                r["src"] = f
            else:
                r["?"] = (f, x)
    return k, r


def r_mask(cx):
    R = "mask"
    cx.rule(R, "the masked stream of the manifest checksum zeroes exactly bytes [38, 256) of each pack info record — the location field and its block check — and "
               "passes every other byte through; creator and reader hash the manifest through it over [0, check_info_pos)")
    # the location field is exactly the masked bytes: STRUCTS has it at 38, 214 bytes, followed by the 4-byte crc (252+4)
    k0 = cx.m("PackInfo", "serialize", "Serializable")
    check_writer(cx, R, k0, "PackInfo")
    ks = cx.keys(r"(^|<|::)PackInfo as .*Parsable>::parse::<jubako::bases::parsing::SliceParser")
    if not ks:
        raise Anchor("parser of PackInfo")
    check_reader(cx, R, ks[0], "PackInfo")
    kn, mf = mask_fields(cx)
    if "?" in mf and {"cur", "first", "src"} <= set(mf):
        cx.ob(R, kn, "end of the masked zone", False, "the zone ends at %s instead of first + 256*count" % show(mf["?"][1]))
        return
    if not {"cur", "first", "end", "src"} <= set(mf):
        raise Anchor("ManifestCheckStream state")
    cx.ob(R, kn, "masked zone", True)
    k = cx.m("ManifestCheckStream", "read", "Read")
    o, p, s = (F(A[0], mf[x]) for x in ("cur", "first", "end"))
    d = sub(o, p)
    L = band(d, c(255))
    seen = set()
    for t in oks(cx.traces(k)):
        rd = [e for e in calls(t, re.compile(r"Read::read$"))]
        fi = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"::fill$|fill_with$", e.name)]
        others = [e for e in flat(t.effs) if e.kind == "loop"]
        if len(rd) != 1 or others or len(fi) > 1:
            raise Anchor("ManifestCheckStream::read does not read once")
        buf = rd[0].args[1]
        res = mk("pl", rd[0].res, "Ok", "0")
        if buf is A[1]:
            n = mk_len(A[1])
        elif buf.op == "slice" and buf.a[0] is A[1] and buf.a[1] is c(0):
            n = buf.a[2]
        else:
            raise Anchor("reads into %s" % show(buf)[:100])
        before, after = implied(t, lt(o, p)), implied(t, le(s, o))
        lo, hi = implied(t, lt(L, c(LOC))), implied(t, le(c(LOC), L))
        masked = False
        if before is True:
            kind, okk = "before the records", bounded(t, n, sub(p, o))
        elif after is True:
            kind, okk = "after the records", True
        elif lo is True and before is False:
            kind, okk = "checked part of a record", bounded(t, n, sub(c(LOC), L))
        elif hi is True and before is False:
            kind, okk, masked = "location of a record", bounded(t, n, sub(c(PSIZE), L)), True
        else:
            rs = [x for x in list(t.facts) + list(t.bnd) for y in walk(x) if y.op in ("and", "rem", "urem") and y.a[0] is d]
            if rs:
                cx.ob(R, k, "masked bytes", False, "the records are split on %s instead of (position - first) mod 256 < 38" % sorted({show(x)[:80] for x in rs}))
                continue
            raise Anchor("a read is not classified by its position in the records")
        seen.add(kind)
        cx.ob(R, k, "%s: read stays inside" % kind, okk, "reads %s bytes" % show(n)[:200])
        if masked:
            g = fi[0] if fi else None
            if g is None:
                cx.ob(R, k, "%s: zeroed" % kind, False, "the location is hashed")
            else:
                b = g.args[0]
                ln = mk_len(b)
                cx.ob(R, k, "%s: zeroed" % kind, g.args[1] is c(0) and (covers(b, res) or ln is res), "fills %s with %s" % (show(b)[:200], show(g.args[1])))
        else:
            cx.ob(R, k, "%s: passed through" % kind, not fi, "bytes covered by the checksum are overwritten")
        cx.ob(R, k, "%s: returns what was read" % kind, okval(t) is res, show(okval(t))[:200])
        cx.ob(R, k, "%s: position advances" % kind, fld(final(t, A[0]), mf["cur"]) is add(o, res), "position becomes %s" % show(fld(final(t, A[0]), mf["cur"]))[:200])
    cx.ob(R, k, "all four zones", len(seen) == 4, str(sorted(seen)))
    # the two users
    k = cx.m("ManifestPack", "check", "Pack")
    n = 0
    for t in oks(cx.traces(k, stop=["parse_block"])):
        ci, cnt = F(A[0], "pack_header", "check_info_pos"), F(A[0], "header", "pack_count")
        for e in calls(t, re.compile(r"Hasher::update_reader$")):
            n += 1
            ms = [x for x in aggs(e.args[1], "ManifestCheckStream")]
            if not ms:
                cx.ob(R, k, "reader: masked", False, "the manifest is hashed without exempting the locations")
                continue
            if implied(t, eq(cnt, c(0))) is not True:
                mask_of(cx, R, k, "reader", ms[0], mf, sub(ci, mulc(cnt, PSIZE)), ci)
            cut = [e2 for e2 in calls(t, re.compile(r"Source::cut$")) if contains(fld(ms[0], mf["src"]), lambda x: x is e2.res)]
            rg = F(A[0], "reader", "region", "begin")
            if len(cut) == 1:
                cx.ob(R, k, "reader: hashes [0, check_info_pos)", fld(cut[0].args[1], "begin") is rg and fld(cut[0].args[1], "end") is add(rg, ci), show(cut[0].args[1]))
            else:
                raise Anchor("the hashed stream is not a cut of the manifest")
    if n == 0:
        raise Anchor("ManifestPack::check hashes nothing")
    ps = PackStream(cx, "Manifest")
    for s in ps.ss:
        hs = calls(s.t, re.compile(r"Hasher::update_reader$"))
        if not hs:
            raise Anchor("the manifest creator hashes nothing")
        start, h = hdr(s, "PackHeader", "Manifest")
        _, mh = hdr(s, "ManifestPackHeader", "Manifest")
        rdp = [l for l in s.log if l[0] == "read-to-end"]
        cx.ob(R, ps.key, "creator: hashes from the manifest's start", len(rdp) == 1 and rdp[0][1] is start, "hashes from %s" % [show(l[1]) for l in rdp])
        ms = aggs(s.res(hs[0].args[1]), "ManifestCheckStream")
        if not ms:
            cx.ob(R, ps.key, "creator: masked", False, "the manifest is hashed without exempting the locations")
            continue
        lp = [l for l in s.log if l[0] == "loop"][-1]
        first = sub(lp[1], start)
        cnt = unconv(fld(mh, "pack_count"))
        m = ms[0]
        a, b = strip_conv(fld(m, mf["first"])), strip_conv(fld(m, mf["end"]))
        cx.ob(R, ps.key, "creator: masked zone starts at the first pack info", a is first and fld(m, mf["cur"]) is c(0), "masks from %s, the pack infos start at %s" % (show(a), show(first)))
        cx.ob(R, ps.key, "creator: masked zone covers every pack info", b is add(a, mulc(strip_conv(cnt), PSIZE)), "masks up to %s" % show(b))


def covers(b, res):
    """b is a prefix [..res] of a buffer"""
    return b.op == "slice" and b.a[1] is c(0) and b.a[2] is res or b.op in ("hv", "upd") and covers(b.a[0], res)


def mask_of(cx, R, k, who, m, mf, first, end):
    m = strip_conv(uncount(cx, m))
    cx.ob(R, k, "%s: masked zone" % who, fld(m, mf["first"]) is first and fld(m, mf["cur"]) is c(0), "starts at %s, expected %s" % (show(fld(m, mf["first"])), show(first)))
    e = fld(m, mf["end"])
    # without records the zone is empty whatever its end
    cx.ob(R, k, "%s: masked zone end" % who, e is end or e is fld(m, mf["first"]) or e is c(0), "ends at %s, expected %s" % (show(e), show(end)))


def r_cli(cx):
    R = "admissible"
    cx.rule(R, "jbk locate rewrites locations of at most 213 bytes (the field: 1 length byte + 213), all of them")
    ks = [k for k in cx.bin.fns if re.search(r"locate::run$", k)]
    if not ks:
        raise Anchor("jbk locate")
    n = 0
    for t in cx.traces(ks[0], crate=cx.bin, stop=["set_location", "parse_str", "open_pack", "get_manifest"]):
        if t.kind == "ret" and not calls(t, re.compile(r"set_location$")):
            # refused: whatever the location, or only longer ones
            named = any(x.op == "discr" and x.a[0].op == "call" and x.a[0].a[0].endswith("parse_str") and t.bnd[x][:2] == (0, 0) for x in t.bnd)
            for x in t.bnd:
                if x.op == "len" and "new_location" in show(x):
                    lo = t.bnd[x][0] or 0
                    cx.ob(R, ks[0], "admissible locations are rewritten", lo > 213 or lo == 0 and not named, "locations of %s bytes are refused" % lo)
        for e in calls(t, re.compile(r"set_location$")):
            n += 1
            loc = e.args[2]
            src = [x for x in walk(loc) if x.op in ("pl", "fld") and "new_location" in show(x)]
            lens = [x for x in t.bnd if x.op == "len" and (x.a[0] in src or x.a[0] is loc)]
            hi = min([t.bnd[x][1] for x in lens if t.bnd[x][1] is not None] or [1 << 62])
            cx.ob(R, ks[0], "location length bounded", hi <= 213, "locations up to %s bytes are accepted" % hi)
            cx.ob(R, ks[0], "the given uuid and file", contains(e.args[0], lambda x: x is F(A[0], "infile")) and any("uuid" in show(x) for x in walk(e.args[1])), "")
    if n == 0:
        raise Anchor("jbk locate does not call set_location")


def r_blocks(cx):
    from . import c14
    c14.envelope(cx)
    c14.blockcheck(cx)


def r_record(cx):
    """what is written as a location is what is read back"""
    from . import c14
    cx.rule("record", "a pack info record is written and read with each field at its place, and the location is written and read as it is")
    c14.check_writer(cx, "record", cx.m("PackInfo", "serialize", "Serializable"), "PackInfo")
    ks = cx.keys(r"(^|<|::)PackInfo as .*Parsable>::parse::<jubako::bases::parsing::SliceParser")
    if not ks:
        raise Anchor("parser of a pack info")
    c14.check_reader(cx, "record", ks[0], "PackInfo")


RULES = [("blocks", r_blocks), ("record", r_record), ("rewrite", r_write), ("offsets", r_offsets), ("mask", r_mask), ("cli", r_cli), ("pack-data", manifest.r_packdata)]
