"""C14: what creators write and readers read is the documented layout (frozen tables in layout.py)."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *
from . import cluster, entries, manifest, props, readers, values
from .entries import consistent, evs

LEVEL = "other"
TECHNIQUE = ("value-flow analysis of MIR: the byte tables of every serialiser and parser, the positions at which creators write them and the "
             "encoding of entries and clusters are computed symbolically and compared with frozen tables of format 0.2")
FLOOR = 300
ASSUMPTIONS = []
ALG = tup(c(32), c(0x1EDC6F41), c(0xFFFFFFFF), c(0), c(0), c(0))


def structs(cx):
    cx.rule("writer", "every success path of the serialiser writes exactly the frozen bytes of the structure (offset, width, endianness, source field; reserved bytes zero)")
    cx.rule("reader", "every success path of the parser takes each field from the frozen bytes and from nothing else; magic, version and codes are required")
    for n in STRUCTS:
        check_writer(cx, "writer", cx.m(n, "serialize", "Serializable"), n)
        ks = cx.keys(r"(^|<|::)%s as .*Parsable>::parse::<jubako::bases::parsing::SliceParser" % n)
        if not ks:
            raise Anchor("parser of %s" % n)
        check_reader(cx, "reader", ks[0], n)
    k = cx.keys(r"(^|<|::)PackHeader as .*Parsable>::parse::<jubako::bases::parsing::SliceParser")[0]
    sl, o0 = F(A[0], "slice"), F(A[0], "offset")
    for t in oks(cx.traces(k)):
        for off, b in ((8, 0), (9, 2)):
            cx.ob("reader", k, "version byte %d is %d" % (off, b), implied(t, eq(mk("idx", sl, add(o0, c(off))), c(b))) is True, "another version is accepted")


def packed(cx):
    cx.rule("packing", "sized offset = offset << 16 | size in 8 bytes; content info = cluster << 12 | blob in 4 bytes; writer and reader")
    for n, (size, low, high, bits) in PACKED.items():
        k = cx.m(n, "serialize", "Serializable")
        for t in oks(cx.traces(k)):
            tb = written(t, A[1])
            ok_ = len(tb) == 1 and tb[0][1] is c(size) and tb[0][2] == "le" and is_packed(tb[0][3], F(A[0], low), F(A[0], high), bits, size)
            cx.ob("packing", k, n, ok_, show_table(tb))
            if n == "SizedOffset":
                fits = [x for x in (1 << 16, (1 << 16) + 1, 1 << 20) if consistent(t.bnd, t.facts, {F(A[0], low): x})]
                cx.ob("packing", k, "%s: a size that does not fit is refused" % n, not fits, "a size of %s is written cut to 16 bits" % (fits and fits[0]))
        if n == "SizedOffset":
            for t in cx.traces(k, paths=True):
                if t.kind == "ret" and not isagg(t.val, None, "Err"):
                    continue
                no = [x for x in (0, 1, 256, 65535) if consistent(t.bnd, t.facts, {F(A[0], low): x, F(A[0], high): 12345}) and all(evs(x2, {F(A[0], low): x, F(A[0], high): 12345}) is not None for x2 in t.bnd)]
                cx.ob("packing", k, "%s: a size that fits is accepted" % n, not no, "a size of %s is refused" % (no and no[-1]))
        ks = cx.keys(r"(^|<|::)%s as .*Parsable>::parse::<jubako::bases::parsing::SliceParser" % n)
        if not ks:
            raise Anchor("parser of %s" % n)
        sl, o0 = F(A[0], "slice"), F(A[0], "offset")
        for t in oks(cx.traces(ks[0])):
            v = okval(t)
            raw = [x for x in walk(v) if x.op == "dec"]
            ok_ = (len(set(raw)) == 1 and rd_u(raw[0], sl, o0, size) and is_unpacked(fld(v, low), raw[0], 0, bits, size)
                   and is_unpacked(fld(v, high), raw[0], bits, 8 * size - bits, size))
            cx.ob("packing", ks[0], n, ok_, show(v)[:300])
            cx.ob("packing", ks[0], "%s: consumed" % n, fld(final(t, A[0]), "offset") is add(o0, c(size)), "")


def checkinfo(cx):
    cx.rule("check-info", "check info = code 0, or code 1 and the 32 bytes of the hash; writer and reader")
    k = cx.m("CheckInfo", "serialize", "Serializable")
    f = cx.field("CheckInfo", "Option<")
    h = mk("fld", mk("var", F(A[0], f), "Some"), "0")
    seen = set()
    for t in oks(cx.traces(k)):
        tb = written(t, A[1])
        v = F(A[0], f)
        d = t.E.decide(t.st, eq(mk("discr", v), c(0)))
        if d is None:
            d = t.E.decide(t.st, eq(mk("discr", A[0]), c(0)))
        seen.add(len(tb))
        if len(tb) == 1:
            cx.ob("check-info", k, "none", d is not False and tb[0][1] is c(1) and tb[0][3] is c(0), show_table(tb))
        else:
            cx.ob("check-info", k, "blake3", d is not True and len(tb) == 2 and tb[0][1] is c(1) and tb[0][3] is c(1) and tb[1][2] == "raw"
                  and contains(tb[1][3], lambda x: x is A[0]), show_table(tb))
    cx.ob("check-info", k, "both kinds", seen == {1, 2}, str(seen))
    ks = cx.keys(r"(^|<|::)CheckInfo as .*Parsable>::parse::<jubako::bases::parsing::SliceParser")
    if not ks:
        raise Anchor("CheckInfo parser")
    sl, o0 = F(A[0], "slice"), F(A[0], "offset")
    kinds = set()
    for t in oks(cx.traces(ks[0])):
        v = is_check(okval(t))
        b = mk("idx", sl, o0)
        if v is not None and v.a[1] == "None":
            kinds.add(0)
            cx.ob("check-info", ks[0], "reads none", implied(t, eq(b, c(0))) is True, "the code may be another")
        elif v is not None:
            kinds.add(1)
            cx.ob("check-info", ks[0], "reads blake3", implied(t, eq(b, c(1))) is True and rd_raw(fld(v, "0"), sl, add(o0, c(1)), 32), show(v)[:300])
    cx.ob("check-info", ks[0], "reads both kinds", kinds == {0, 1}, str(kinds))


def crc_of(data):
    return mk("crc", ALG, data)


def be4(v, data):
    return v is not None and v.op == "enc" and v.a[0] in (4, c(4)) and v.a[1] == "be" and v.a[2] is crc_of(data)


def envelope(cx):
    cx.rule("block", "a block is its bytes followed by their CRC-32C (poly 0x1EDC6F41, init -1, no reflection, no xorout), big-endian")
    k = cx.m("Serializer", "close")
    crc = discrs(cx, "BlockCheck")
    n = 0
    for t in oks(cx.traces(k)):
        d, ck = fld(t.val, "0"), fld(t.val, "1")
        isnone = implied(t, eq(mk("discr", F(A[0], "check")), c(crc["None"])))
        if isnone is True:
            cx.ob("block", k, "unchecked: no crc", isagg(ck, None, "None"), show(ck))
        else:
            n += 1
            cx.ob("block", k, "crc over all the bytes", isagg(ck, None, "Some") and be4(fld(ck, "0"), d), "returns %s" % show(t.val)[:300])
        cx.ob("block", k, "bytes unchanged", contains(d, lambda x: x is F(A[0], "buf")) and d.op in ("call", "pure", "fld", "app") or show(d).endswith("into_inner($0.buf)"), show(d))
    cx.ob("block", k, "checked blocks", n >= 1, "")
    dn = "OutStream"
    k = cx.key(r"<Self as .*OutStream>::write_serializer \[Self\]")
    for t in oks(cx.traces(k)):
        ws = items(t.effs, A[0])
        isnone = implied(t, eq(mk("discr", F(A[1], "check")), c(crc["None"])))
        part = any(w[0] == "partial" for w in ws)
        if isnone is True:
            cx.ob("block", k, "unchecked block", len(ws) == 1 and not part, "")
        elif not part:
            cx.ob("block", k, "bytes then crc", len(ws) == 2 and be4(ws[1][1], ws[0][1]) and contains(ws[0][1], lambda x: x is F(A[1], "buf")),
                  "writes %s" % [show(w[1])[:100] for w in ws])
            cx.ob("block", k, "returns the size without crc", okval(t) is mk_len(ws[0][1]), show(okval(t)))
        else:
            cx.ob("block", k, "whole bytes", False, "a partial write is used")
    for name, inner in (("ser_write", r"Serializable::serialize$"), ("ser_callable", r"Fn::call$")):
        k = cx.key(r"<Self as .*OutStream>::%s \[Self\]" % name)
        for t in oks(cx.traces(k)):
            block_call(cx, k, t, inner, A[0], 1 if name == "ser_write" else 1)
    k = cx.key(r"<Self as .*WritableTell>::write \[Self\]")
    for t in oks(cx.traces(k)):
        wd = first_index(t, lambda e: re.search(r"WritableTell::write_data$", e.name))
        if wd is None:
            raise Anchor("WritableTell::write does not call write_data")
        w = block_call(cx, k, t, r"WritableTell::serialize_tail$", A[1], 1)
        tl = [e for e in flat(t.effs) if re.search(r"OutStream::tell$|Seek::stream_position$", e.name)]
        v = okval(t)
        i_tell = first_index(t, lambda e: e is tl[0]) if tl else None
        i_w = first_index(t, lambda e: e is w)
        ok_ = bool(tl) and wd < i_tell < i_w and contains(fld(v, "offset"), lambda x: x is tl[0].res) and contains(fld(v, "size"), lambda x: x is w.res)
        cx.ob("block", k, "address = tail position after the data, tail size", ok_, show(v)[:300])


def block_call(cx, k, t, inner, sink, ai):
    ws = [e for e in flat(t.effs) if re.search(r"write_serializer$", e.name)]
    if len(ws) != 1:
        raise Anchor("%s does not hand one block to write_serializer" % k)
    w = ws[0]
    s = w.args[1]
    b = base_obj(s)
    fill = [e for e in flat(t.effs) if re.search(inner, e.name)]
    cx.ob("block", k, "a fresh checked block", isagg(b, "Serializer") and isagg(fld(b, "check"), None, "Crc32"), "the block is %s" % show(b))
    cx.ob("block", k, "filled once then written", len(fill) == 1 and base_obj(w.args[0]) is sink and s is not b, "%s" % [show(x) for x in w.args])
    return w


def blockcheck(cx):
    cx.rule("block-check", "a checked block is accepted exactly when the CRC-32C of all bytes but the last four equals these, big-endian")
    k = cx.free("assert_slice_crc")
    n = mk_len(A[0])
    body = mk_slice(A[0], c(0), sub(n, c(4)))
    tail = mk_slice(A[0], sub(n, c(4)), n)
    calc = crc_of(body)
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        good = crc_holds(t, calc, tail, A[0])
        cx.ob("block-check", k, "rejected" if is_err(t) else "accepted", good is (not is_err(t)), "the path is decided by %s" % [show(x)[:120] for x in list(t.facts)[:3]])
    sz = [k2 for k2 in cx.keys(r"BlockCheck::size$")]


def crc_holds(t, calc, tail, whole):
    """truth of `crc(body) == stored` on trace t, from its facts"""
    stored = [mk("dec", w, "be", s, tail) for w in (c(4), 4) for s in (False, FALSE)]
    for s in stored:
        d = implied(t, eq(calc, s))
        if d is not None:
            return d
    full = implied(t, eq(mk("crc", ALG, whole), c(0)))
    if full is not None:
        return full
    enc = mk("enc", c(4), "be", calc)
    for e in (enc, mk("enc", 4, "be", calc)):
        for d in (t.E.decide(t.st, gen_eq(e, tail)), t.E.decide(t.st, gen_eq(tail, e))):
            if d is not None:
                return d
    return None


def creators(cx, kinds=tuple(CREATORS)):
    cx.rule("pack", "each creator writes header at the pack's start, its specific header at +64, the check info at the announced position, size = check position + "
                    "check block + 64, and the first 64 bytes reversed at the very end")
    cx.rule("tables", "the pointer and count in each specific header are those of a table written as one block, one element per entry in order")
    for kind in kinds:
        ps = PackStream(cx, kind)
        for s in ps.ss:
            start, h, kh = check_stream(cx, "pack", ps, s)
            if kind == "Content":
                check_table(cx, "tables", ps.key, "clusters", s, fld(kh, "cluster_ptr_pos"), fld(kh, "cluster_count"), 8, start, packed_of("SizedOffset"), stored_bits("cluster_count"))
                v = check_table(cx, "tables", ps.key, "contents", s, fld(kh, "content_ptr_pos"), fld(kh, "content_count"), 4, start, packed_of("ContentInfo"), stored_bits("content_count"))
            elif kind == "Directory":
                for nm, what in (("index", "indexes"), ("entry_store", "entry stores"), ("value_store", "value stores")):
                    v = check_table(cx, "tables", ps.key, what, s, fld(kh, nm + "_ptr_pos"), fld(kh, nm + "_count"), 8, start, packed_of("SizedOffset"), stored_bits(nm + "_count"))
                    if v is not None:
                        filled(cx, "tables", ps.key, s, v, what)
            elif kind == "Container":
                lp = [l for l in s.log if l[0] == "loop" and sub(l[1], start) is fld(kh, "pack_locators_pos") or l[0] == "loop" and l[1] is fld(kh, "pack_locators_pos")]
                cx.ob("tables", ps.key, "locators: pointer", len(lp) == 1, "announced %s" % show(fld(kh, "pack_locators_pos")))
                for l in lp:
                    blocks(cx, "tables", ps.key, "locators", l[2], fld(kh, "pack_count"))
            elif kind == "Manifest":
                infos = [l for l in s.log if l[0] == "loop"]
                cp = [l for l in s.log if isinstance(l[0], tuple) and l[0][0] == "obj" and is_check(l[0][1]) is not None][-1][1]
                last = infos[-1]
                i = s.log.index(last)
                nxt = s.log[i + 1][1] if i + 1 < len(s.log) else None
                cx.ob("tables", ps.key, "pack infos: last before the check info", not [l for l in s.log[i + 1:] if l[3] and l[1] is not None and l[0] not in ("read", "read-to-end") and l[1] is not cp and l is not s.log[-1]],
                      "something is written between the pack infos and the check info")
                blocks(cx, "tables", ps.key, "pack infos", last[2], fld(kh, "pack_count"), strict_len=False)


def blocks(cx, rule, key, inst, le, count, strict_len=True, bits=16):
    """a loop writing one block per element of a vector, in order"""
    n = 0
    for it in le.x["iters"]:
        ws = [e for e in flat(it.effs) if e.kind == "call" and re.search(r"OutStream::ser_write$", e.name)]
        if not ws:
            continue
        n += 1
        lv = seq_loop(le, it)
        v = elem_of(ws[0].args[1], lv) if lv is not None else None
        cx.ob(rule, key, "%s: one block per element in order" % inst, len(ws) == 1 and v is not None, "%s" % [show(w.args[1])[:120] for w in ws])
        if strict_len and v is not None:
            cx.ob(rule, key, "%s: count" % inst, unconv(count, bits) is mk_len(v), "announced %s, table over %s" % (show(count), show(v)))
    cx.ob(rule, key, "%s: written" % inst, n >= 1, "no block written")


def filled(cx, rule, key, s, vec, what):
    """the vector of addresses is filled by a loop that pushes what WritableTell::write returned"""
    n = 0
    for e in s.t.effs:
        if e.kind != "loop" or vec not in e.x["init"]:
            continue
        for it in e.x["iters"]:
            nx = it.next.get(vec)
            if nx is None or nx is vec:
                continue
            n += 1
            w = [x for x in flat(it.effs) if x.kind == "call" and re.search(r"WritableTell::write$", x.name)]
            ok_ = nx.op == "push" and nx.a[0] is vec and len(w) == 1 and contains(nx.a[1], lambda x: x is w[0].res)
            cx.ob(rule, key, "%s: addresses are those returned by the writer" % what, ok_, show(nx)[:300])
    cx.ob(rule, key, "%s: addresses collected" % what, n >= 1, "the addresses are not collected by a loop")


RULES = [("structs", structs), ("packed", packed), ("checkinfo", checkinfo), ("envelope", envelope), ("blockcheck", blockcheck), ("creators", creators), ("pack-data", manifest.r_packdata), ("cluster raw", cluster.r_raw), ("cluster compressed", cluster.r_compressed)] + \
        [(n, (lambda f, n: lambda cx: f(cx, n))(f, n)) for n, f in (
            ("property bytes", props.r_frozen), ("entry bytes", entries.r_entry), ("bytes needed", values.r_needed), ("value stores", values.r_tails), ("value numbers", values.r_ids), ("stores of a pack", values.r_pack),
            ("layout bytes", entries.r_layout), ("layout read", readers.r_rlayout), ("layout written", readers.r_lwrite), ("places of properties", readers.r_places), ("indexes and stores", readers.r_index), ("entry windows", readers.r_window),
            ("integers parsed", values.r_parsers), ("values read", props.r_read))]
