"""C16 — the compression hint decides how a content is stored."""
from . import content
from .core import *

LEVEL = "other"
FLOOR = 40
TECHNIQUE = ("Interprocedural value-flow analysis of MIR: the (pack compression, hint) decision table of add_content is decided by evaluating it, with "
             "everything inlined, under each assumption; the open cluster a content lands in is followed to the channel it is sent on, and the channel to the "
             "thread that writes it verbatim with compression byte 0 or encodes it with the pack's algorithm; the deduplicating adder's traces are "
             "matched against lookup / insert / return of one key")
ASSUMPTIONS = ["std channels, HashMap and io::copy behave as documented", "the codec crates encode what they are given",
               "which way the 'detect' hint goes is not part of the property"]

COMP = lambda base: mk("discr", base)
HINT = {"Yes": 0, "No": 1, "Detect": 2}


def enum_discr(cx, name):
    for k, a in cx.lib.adts.items():
        if a.get("local") and k.split("::")[-1] == name:
            return {v["name"]: (v["discr"] if v["discr"] is not None else i) for i, v in enumerate(a["variants"])}
    raise Anchor("enum " + name)


def slots(cx):
    return cx.fields("ContentPackCreator", r"^core::option::Option<.*ClusterCreator>$")


def dests(t, sl):
    """open-cluster slots of $0 that hold the added content at the end of the trace"""
    f = final(t, A[0])
    r = []
    for s in sl:
        v = F(f, s)
        if any(x.op == "push" and base_obj(x.a[1]) is A[1] for x in walk(v)):
            r.append(s)
    return r


def sends(t):
    for e in flat(t.effs):
        if e.kind == "call" and e.name.split("::")[-1] == "send" and ("spmc" in (e.rdef or e.name) or "mpsc" in (e.rdef or e.name)):
            yield ("dispatch" if "spmc" in (e.rdef or e.name) else "write"), e


def slot_of(t, v, sl):
    """which slot's initial cluster the sent value is"""
    r = set()
    for x in walk(v):
        for s in sl:
            if x is mk("pl", F(A[0], s), "Some", "0") or x is F(A[0], s):
                r.add(s)
    return r


# what follows the flush does not matter here
FIN_STOP = ("CheckInfo::new_blake3", "OutStream::ser_write", "OutStream::ser_callable", re.compile(r"ClusterWriterProxy::<.*>::finalize$"))


def cases(cx):
    cf = cx.field("ContentPackCreator", r"creator::Compression$")
    pf = cx.field("ContentPackCreator", r"ClusterWriterProxy<")
    pc = cx.field("ClusterWriterProxy", r"creator::Compression$")
    own, proxy = F(A[0], cf), F(A[0], pf, pc)
    cd = enum_discr(cx, "Compression")
    none = [(eq(mk("discr", own), c(cd["None"])), True), (eq(mk("discr", proxy), c(cd["None"])), True)]
    some_ = [(eq(mk("discr", own), c(cd["None"])), False), (eq(mk("discr", proxy), c(cd["None"])), False)]
    return none, some_


def r_decision(cx):
    R = "decision"
    cx.rule(R, "into a compressing pack: hint No always lands the content in one open cluster (raw), hint Yes always in the other; a content is put in "
               "exactly one cluster; a full raw cluster goes to the writer unchanged, a full compressed cluster goes to the compressor iff the pack compresses")
    none, comp = cases(cx)
    hd = enum_discr(cx, "CompHint")
    k = cx.m("ContentPackCreator", "add_content")
    sl = slots(cx)
    hint = mk("discr", A[2])
    where = {}
    for h in ("No", "Yes"):
        ts = oks(cx.traces(k, stop=["shannon_entropy"], assume=tuple(comp + [(eq(hint, c(hd[h])), True)])))
        cx.ob(R, k, "hint %s: succeeds" % h, bool(ts), "no successful path for hint %s" % h)
        for t in ts:
            d = dests(t, sl)
            cx.ob(R, k, "hint %s: one cluster" % h, len(d) == 1, "content lands in %s" % (d or "no open cluster"))
            where.setdefault(h, set()).update(d)
        cx.ob(R, k, "hint %s: always the same slot" % h, len(where.get(h, ())) == 1, "slots %s depending on the path" % sorted(where.get(h, ())))
    raw, cmp_ = where.get("No", set()), where.get("Yes", set())
    cx.ob(R, k, "hints separate", not (raw & cmp_), "hints Yes and No share the open cluster %s" % sorted(raw & cmp_))
    if len(raw) != 1 or len(cmp_) != 1 or raw == cmp_:
        return
    raw, cmp_ = next(iter(raw)), next(iter(cmp_))
    # what happens to clusters that leave the slots
    fin = cx.m("ContentPackCreator", "finalize")
    cp = cx.m("ContentPackCreator", "add_content")
    n = 0
    for key, stop in ((cp, ("shannon_entropy",)), (fin, FIN_STOP)):
        for nm, asm in (("pack without compression", none), ("compressing pack", comp)):
            ts = cx.traces(key, stop=stop, assume=tuple(asm))
            for t in ts:
                for chan, e in sends(t):
                    s = slot_of(t, e.args[1], sl)
                    n += 1
                    if not s:
                        cx.ob(R, key, "%s: origin of the sent cluster" % nm, False, "sent %s" % show(e.args[1])[:200])
                        continue
                    want = "dispatch" if (s == {cmp_} and asm is comp) else "write"
                    cx.ob(R, key, "%s: cluster of %s" % (nm, "/".join(sorted(s))), chan == want and len(s) == 1,
                          "cluster of %s goes to the %s channel" % (sorted(s), "compressor" if chan == "dispatch" else "writer"))
    # finalize flushes both open clusters
    for s in sl:
        cl = mk("pl", F(A[0], s), "Some", "0")
        asm = comp + [(eq(mk("discr", F(A[0], s)), c(1)), True)] + [(lt(c(0), mk_len(F(cl, f))), True) for f in cx.fields("ClusterCreator", "^alloc::vec::Vec<")]
        for t in oks(cx.traces(fin, stop=FIN_STOP, assume=tuple(asm))):
            sent = any(s in slot_of(t, e.args[1], sl) for _, e in sends(t))
            cx.ob(R, fin, "open cluster %s is flushed" % s, sent, "finalize ends without sending the non-empty open cluster of %s" % s)
    cx.ob(R, "crate", "send sites seen", n >= 6, "%d sends" % n)


def r_proxy(cx):
    R = "pack-compression"
    cx.rule(R, "the creator, its cluster writer proxy and every worker use the Compression the pack was created with")
    cf = cx.field("ContentPackCreator", r"creator::Compression$")
    pf = cx.field("ContentPackCreator", r"ClusterWriterProxy<")
    pc = cx.field("ClusterWriterProxy", r"creator::Compression$")
    for k in sorted(cx.roots(lambda f: (f.get("selfd") or f.get("self") or "").split("<")[0].endswith("::ContentPackCreator") and f["name"].startswith("new"))):
        f = cx.fn(k)
        comp = [i for i in range(f["argc"]) if cx.lib.types[f["locals"][i + 1]]["s"].endswith("creator::Compression")]
        for t in oks(cx.traces(k)):
            v = okval(t)
            if isagg(v, "ContentPackCreator"):
                cx.ob(R, k, "creator", F(v, cf) is A[comp[0]], show(F(v, cf))[:200])
                cx.ob(R, k, "proxy", F(v, pf, pc) is A[comp[0]], show(F(v, pf, pc))[:200])
            else:
                cx.ob(R, k, "result", False, show(v)[:300])
    # workers: closures spawned by the proxy's constructor
    new = cx.m("ClusterWriterProxy", "new")
    f = cx.fn(new)
    ci = [i for i in range(f["argc"]) if cx.lib.types[f["locals"][i + 1]]["s"].endswith("creator::Compression")][0]
    wf = cx.field("ClusterCompressor", r"creator::Compression$")
    n = 0
    for t in cx.traces(new):
        if t.kind != "ret":
            continue
        for e in calls(t, "Builder::spawn") + calls(t, "thread::spawn"):
            clo = e.args[-1]
            if not (clo.op == "agg" and clo.a[0] == "closure"):
                continue
            body = cx.lib.fns.get(clo.a[1])
            if body is None:
                continue
            for w in run_closure(cx, clo):
                for c2 in calls(w, re.compile(r"ClusterCompressor::run$")):
                    n += 1
                    cx.ob(R, new, "worker", F(c2.args[0], wf) is A[ci], "worker compresses with %s" % show(F(c2.args[0], wf))[:200])
        break
    cx.ob(R, new, "workers found", n >= 1, "no spawned worker runs a compressor")


def run_closure(cx, clo):
    """traces of a closure value applied to no argument"""
    E = Engine(cx.lib, stop=[re.compile(r"::run$")])
    st = engine.St()
    body = cx.lib.fns[clo.a[1]]
    st.mem[("S", sym("#clo"))] = clo
    ts = E.analyse(clo.a[1], args=[clo], st=st)
    for t in ts:
        t.E = E
    cx.fns.add(clo.a[1]) if clo.a[1] in cx.lib.fns else None
    return ts


def r_threads(cx):
    R = "store"
    cx.rule(R, "the writer thread copies a raw cluster's inputs verbatim and marks it compression 0; a compressor worker feeds every input to the encoder of "
               "the pack's algorithm at the pack's level and marks the cluster with that algorithm's code")
    codes = {"None": 0, "Lz4": 1, "Lzma": 2, "Zstd": 3}
    cd = enum_discr(cx, "Compression")
    wf = cx.field("ClusterCompressor", r"creator::Compression$")
    # worker
    run = cx.m("ClusterCompressor", "run")
    enc = {"Lz4": re.compile(r"^lz4::|lz4::encoder"), "Lzma": re.compile(r"^xz2::"), "Zstd": re.compile(r"^zstd::")}
    for v in ("Lz4", "Lzma", "Zstd"):
        ts = cx.traces(run, stop=["needed_bytes", "assert_slice_crc"], assume=((eq(mk("discr", F(A[0], wf)), c(cd[v])), True),))
        seen = 0
        for t in ts:
            for lp in [e for e in t.effs if e.kind == "loop"]:
                for it in lp.x["iters"]:
                    effs = list(flat(it.effs))
                    snd = [e for e in effs if e.kind == "call" and e.name.endswith("::send")]
                    if not snd:
                        continue
                    seen += 1
                    used = {n for n, rx in enc.items() for e in effs if e.kind == "call" and rx.search(e.name) or (e.kind == "call" and e.rdef and rx.search(e.rdef))}
                    cx.ob(R, run, "%s: encoder" % v, used == {v}, "pack algorithm %s, encoders used %s" % (v, sorted(used)))
                    lvl = mk("pl", F(A[0], wf), v, "0")
                    cx.ob(R, run, "%s: level" % v, any(e.kind == "call" and any(rx.search(e.name) for rx in enc.values()) and any(contains(a, lambda x: x is lvl) for a in e.args)
                                                      for e in effs), "no encoder call takes the pack's level")
                    # the inputs of the cluster are fed, each, to the encoder
                    inner = [e for e in it.effs if e.kind == "loop" and any(x.kind == "call" and x.name.endswith("io::copy::copy") for x in flat(e.x["iters"][0].effs if e.x["iters"] else []))]
                    cx.ob(R, run, "%s: inputs copied" % v, len(inner) == 1 and all(sum(1 for x in flat(i2.effs) if x.name.endswith("copy::copy")) == 1 for i2 in inner[0].x["iters"]),
                          "%d copy loops" % len(inner))
                    code = tail_code(effs)
                    cx.ob(R, run, "%s: compression byte" % v, code is c(codes[v]), "cluster tail starts with %s" % (show(code) if code is not None else None))
        cx.ob(R, run, "%s: sends" % v, seen >= 1, "no iteration sends a compressed cluster")
    # writer
    run = cx.m("ClusterWriter", "run")
    seen = 0
    for t in oks(cx.traces(run, stop=["needed_bytes", "assert_slice_crc"])):
        for lp in [e for e in t.effs if e.kind == "loop"]:
            for it in lp.x["iters"]:
                effs = list(flat(it.effs))
                cp = [e for e in effs if e.kind == "call" and e.name.endswith("copy::copy")]
                anyenc = [e for e in effs if e.kind == "call" and any(rx.search(e.name) for rx in enc.values())]
                cx.ob(R, run, "no encoder", not anyenc, "; ".join(map(repr, anyenc))[:300])
                code = tail_code(effs)
                if code is None:
                    continue
                seen += 1
                cx.ob(R, run, "raw: compression byte", code is c(0), "raw cluster tail starts with %s" % show(code))
        break
    cx.ob(R, run, "raw iterations", seen >= 1, "no iteration writes a raw cluster")


def tail_code(effs):
    """the first byte written to the serializer of the cluster tail (a cursor over a fresh vector)"""
    for e in effs:
        if e.kind == "call" and e.name.endswith("Write::write_all") and e.args[0].op == "call" and contains(e.args[0], lambda x: x.op == "vec") and "new" in e.args[0].a[0]:
            v = e.args[1]
            if v.op == "agg" and v.a[0] == "[]" and len(agg_items(v)) == 1:
                v = agg_items(v)[0][1]
            return v.a[2] if v.op == "enc" and v.a[0] is c(1) else v
    return None


LOOK = re.compile(r"hash::map::HashMap::<.*>::(entry|get|contains_key|get_mut|get_key_value)$|HashMap.*::(entry|get)$")


HASHED = mk("hash of the content")
FORGET = re.compile(r"::(clear|remove|remove_entry|retain|drain|take|replace|pop\w*|split_off|truncate|extract_if|swap)$")


def r_dedup(cx):
    R = "dedup"
    cx.rule(R, "the adder looks the content up by the hash of all its bytes; if present the stored address is returned and nothing is added; else exactly one "
               "add of a reader over the same bytes from their start, with the caller's hint, whose address is recorded under that hash and returned")
    k = cx.m("CachedContentAdder", "add_content", "ContentAdder")
    ts = oks(cx.traces(k))
    hits = miss = 0
    shapes = {}
    cache = F(A[0], cx.field("CachedContentAdder", r"HashMap|BTreeMap"))
    for t in ts:
        looks = [e for e in flat(t.effs) if e.kind == "call" and LOOK.search(e.name)]
        looks += [x for x in walk(t.val) if x.op == "call" and LOOK.search(x.a[0])]
        keyt = None
        for e in looks:
            a = e.args if isinstance(e, Eff) else e.a[1]
            keyt = a[1]
        for cnd in list(t.facts) + list(t.bnd):
            for x in walk(cnd):
                if keyt is None and x.op == "call" and LOOK.search(x.a[0]):
                    keyt = x.a[1][1]
        adds = [e for e in calls(t, "ContentAdder::add_content")]
        cx.ob(R, k, "lookup", keyt is not None, "no lookup in the cache")
        if keyt is None:
            continue
        # the hash covers the whole content
        fz = [x for x in walk(keyt) if x.op == "call" and x.a[0].endswith("Hasher::finalize") or x.op == "call" and x.a[0].endswith("blake3::hash")]
        ups = [e for e in calls(t, re.compile(r"blake3::.*::update(_\w+)?$|^blake3::hash$"))]
        once = {x for x in walk(keyt) if x.op == "call" and x.a[0].endswith("blake3::hash")}
        if len(once) == 1 and not ups:
            # all the bytes at once
            fed, how = list(once)[0].a[1][-1], "hash"
        else:
            cx.ob(R, k, "hash", len(fz) >= 1 and len(ups) == 1, "%d finalize, %d updates" % (len(fz), len(ups)))
            if not fz or len(ups) != 1:
                continue
            fed, how = ups[0].args[-1], ups[0].name
        rd = [e for e in calls(t, "Read::read_to_end") if base_obj(e.args[0]) is A[1]]
        if how.endswith("update_reader"):
            whole = base_obj(fed) is A[1]
            begun = whole and content.at_start(t, ups[0] if ups else None)
            frm = lambda a: base_obj(a) is A[1] and content.at_start(t, adds[0])
        else:
            whole = len(rd) == 1 and base_obj(fed).op == "vec" and fed.op == "hv" and fed.a[1].endswith("read_to_end")
            begun = not whole or content.at_start(t, rd[0])
            frm = lambda a: (a.op == "call" and a.a[0].split("::")[-1] in ("new", "from") and len(a.a[1]) == 1 and a.a[1][0] is fed)
        cx.ob(R, k, "hash covers the content", whole, "hash of %s" % show(fed))
        if whole:
            cx.ob(R, k, "read from its start", begun, "the content is read from where its reader stands")
        # what identifies a content is made of the content alone
        other = [x for x in walk(keyt) if x is A[2]]
        cx.ob(R, k, "identified by its bytes", not other, "the content is looked up by %s" % show(keyt)[:160])
        shapes.setdefault(rebuild(keyt, lambda x: HASHED if x.op == "call" and (x.a[0].endswith("Hasher::finalize") or x.a[0].endswith("blake3::hash")) else x),
                          []).append(any(contains(cnd, lambda x: x is A[2]) for cnd in list(t.facts) + list(t.bnd)))
        # what was stored stays known
        gone = [e for e in flat(t.effs) if e.kind == "call" and e.args and FORGET.search(e.name) and base_obj(e.args[0]) is cache]
        cx.ob(R, k, "what was stored stays known", not gone, "the table of known contents is emptied: %s" % "; ".join(e.name.split("::")[-1] for e in gone))
        ad = okval(t)
        if adds:
            miss += 1
            cx.ob(R, k, "added once", len(adds) == 1, "%d additions" % len(adds))
            e = adds[0]
            cx.ob(R, k, "added to the wrapped adder", base_obj(e.args[0]) is F(A[0], cx.field("CachedContentAdder", r"^Wrapped$|^Wrapper$")), show(e.args[0]))
            cx.ob(R, k, "adds the same bytes", frm(e.args[1]), "adds %s" % show(e.args[1]))
            cx.ob(R, k, "hint kept", e.args[2] is A[2], "hint %s" % show(e.args[2]))
            addr = mk("pl", e.res, "Ok", "0")
            cx.ob(R, k, "returns the new address", ad is addr, show(ad))
            ins = [x for x in flat(t.effs) if x.kind == "call" and x.name.split("::")[-1] in ("insert", "or_insert", "insert_entry") and x.args[-1] is addr
                   and contains(mk("t", *x.args), lambda y: y is keyt)]
            cx.ob(R, k, "records the address under the hash", len(ins) == 1, "%d insertions" % len(ins))
            cx.ob(R, k, "only when absent", absent(t, keyt), "the content is added although the hash may be present")
        else:
            hits += 1
            cx.ob(R, k, "returns the stored address", contains(ad, lambda x: x.op == "call" and LOOK.search(x.a[0]) and x.a[1][1] is keyt), show(ad))
    if len(shapes) > 1 and any(any(v) for v in shapes.values()):
        cx.ob(R, k, "identified by its bytes", False, "the content is looked up by %s depending on the hint" % " or ".join(sorted(show(x)[:80] for x in shapes)))
    cx.ob(R, k, "both outcomes", hits >= 1 and miss >= 1, "%d hit paths, %d miss paths" % (hits, miss))


def absent(t, keyt):
    for cnd in list(t.bnd) + list(t.facts):
        for x in walk(cnd):
            if x.op == "call" and LOOK.search(x.a[0]) and x.a[1][1] is keyt:
                d = mk("discr", x)
                if x.a[0].endswith("entry"):
                    return implied(t, eq(d, c(1))) is True
                if "contains" in x.a[0]:
                    return implied(t, x) is False
                return implied(t, eq(d, c(0))) is True
    return False


def r_forward(cx):
    R = "forward"
    cx.rule(R, "every other ContentAdder hands the reader and the hint on unchanged")
    n = 0
    for k in sorted(cx.roots(lambda f: (f.get("trait") or "").split("::")[-1] == "ContentAdder" and f["name"] == "add_content")):
        if "CachedContentAdder" in k:
            continue
        ts = oks(cx.traces(k, stop=[re.compile(r"ContentPackCreator::<.*>::add_content$")]))
        for t in ts:
            cs = calls(t, re.compile(r"ContentPackCreator::<.*>::add_content$"))
            n += 1
            if not cs:
                # the creator itself, inlined elsewhere
                continue
            cx.ob(R, k, "arguments", len(cs) == 1 and cs[0].args[1] is A[1] and cs[0].args[2] is A[2], "; ".join(map(repr, cs))[:300])
            cx.ob(R, k, "result", okval(t) is mk("pl", cs[0].res, "Ok", "0") or t.val is cs[0].res, show(t.val))
    cx.ob(R, "crate", "adders", n >= 2, "%d" % n)


RULES = [("decision", r_decision), ("pack-compression", r_proxy), ("store", r_threads), ("dedup", r_dedup), ("forward", r_forward)] + content.CREATOR
