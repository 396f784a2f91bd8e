"""How a content comes back: tables of a content pack, clusters and their blobs on the reader side; where the bytes of an input come from on the creator side (C01, C07)."""
from .core import *
from .layout import *
from .entries import evs, consistent

CP = "content_pack::ContentPack"
IDX = re.compile(r"IndexTrait.*::index$|ArrayReader.*::index$")
LOOK = re.compile(r"LruCache.*::(try_)?get_or_insert(_mut|_with|_ref|_with_key)?$")
LGET = re.compile(r"LruCache.*::(get|get_mut|peek|peek_mut)$")
LPUT = re.compile(r"LruCache.*::(put|push)$")
OTHER = re.compile(r"LruCache.*::(get_or_insert\w*|pop\w*|iter\w*|peek_lru\w*|peek_mru)$")
CODEC = {1: r"^lz4::", 2: r"^xz2::", 3: r"^zstd::"}
READ = r"Parser::read_usized$"


# (compression, stored size, plain size, an end offset): sizes of every width a creator writes
BIG = tuple((k, s, s, o) for k in (0,) for s in (255, 256, 300, 65535, 65536, 1 << 24, (1 << 32) - 1, 1 << 32, 1 << 40) for o in (s, 1)) + \
    tuple((k, s, p, p) for k in (1, 2, 3) for s in (255, 256, 300, 65536, 1 << 24, 1 << 32, 1 << 40) for p in (200, 256, 65536, 1 << 25, (1 << 32) - 1, 1 << 32, 1 << 41))


def table_of(cx, elem):
    r = [f[0] for f in adt(cx, "ContentPack", CP)["variants"][0]["fields"] if "ArrayReader<" in f[1] and elem in f[1]]
    if len(r) != 1:
        raise Anchor("table of %s" % elem)
    return r[0]


def header_field(cx):
    r = [f[0] for f in adt(cx, "ContentPack", CP)["variants"][0]["fields"] if f[1].endswith("ContentPackHeader")]
    if len(r) != 1:
        raise Anchor("header of a content pack")
    return r[0]


def ok_of(v):
    return mk("pl", v, "Ok", "0")


def r_open(cx, R="tables"):
    cx.rule(R, "opening a content pack takes the content table and the cluster table at the places and of the lengths its own header announces")
    k = cx.m("ContentPack", "new", "")
    late = None
    ti, tc, hf = table_of(cx, "ContentInfo"), table_of(cx, "SizedOffset"), header_field(cx)
    n = 0
    for t in oks(cx.traces(k, stop=[r"new_memory_from_reader", r"Reader::parse_block"])):
        v = okval(t)
        if not isagg(v, "ContentPack"):
            late = late or "opened pack: %s" % show(v)[:100]
            continue
        n += 1
        h = fld(v, hf)
        if not (h.op == "pl" and h.a[0].op == "call" and re.search(r"parse_block_(at|in)$", h.a[0].a[0]) and base_obj(h.a[0].a[1][0]) is A[0]):
            late = late or "header of a content pack: %s" % show(h)[:100]
            continue
        cx.ob(R, k, "header after the pack header", h.a[0].a[1][1] is c(64), "the header is read at %s" % show(h.a[0].a[1][1]))
        for what, f, ptr, cnt in (("contents", ti, "content_ptr_pos", "content_count"), ("clusters", tc, "cluster_ptr_pos", "cluster_count")):
            x = fld(v, f)
            if not (x.op == "pl" and x.a[0].op == "call" and x.a[0].a[0].endswith("new_memory_from_reader")):
                late = late or "table of %s: %s" % (what, show(x)[:100])
                continue
            a = x.a[0].a[1]
            cx.ob(R, k, "%s: where" % what, base_obj(a[0]) is A[0] and a[1] is fld(h, ptr), "taken at %s" % show(a[1])[-120:])
            cx.ob(R, k, "%s: how many" % what, unconv(a[2]) is fld(h, cnt), "%s of them" % show(a[2])[-120:])
    if late or not n:
        raise Anchor(late or "%s: no path" % k)


def inner_cluster(cx, R, k, t, v, key, effs):
    """v is the cluster that `key` designates; returns False when it is not a recognised way to get one"""
    tc = table_of(cx, "SizedOffset")
    tab = F(A[0], tc)

    def parsed(y):
        """y = payload of parse_data_block(reader, entry of the cluster table at key)"""
        while y.op == "pl" and y.a[1] == "Ok":
            y = y.a[0]
        if not (y.op == "call" and y.a[0].endswith("parse_data_block")):
            return None
        a = y.a[1]
        rd, so = a[0], a[1]
        while so.op == "pl" and so.a[1] == "Ok":
            so = so.a[0]
        if not (so.op == "call" and IDX.search(so.a[0])):
            return None
        return rd.op == "fld" and rd.a[0] is A[0] and so.a[1][0] is tab and unconv(so.a[1][1]) is key

    p = parsed(v)
    if p is not None:
        return p
    while v.op == "pl" and v.a[1] in ("Ok", "Some"):
        v = v.a[0]
    if v.op != "call":
        return None
    es = [e for e in effs if e.kind == "call" and e.res is v]
    if not es:
        return None
    e = es[0]
    if LGET.search(e.name):
        return unconv(e.args[1]) is key
    if LOOK.search(e.name):
        if unconv(e.args[1]) is not key:
            return False
        cr = [(x, l) for l in effs_loops(t.effs) for it in l.x["iters"] for x in it.effs if x.kind == "cret" and x.name == e.name]
        if not cr:
            return None
        r = [okpart(x.args[0]) for x, l in cr]
        r = [x for x in r if x is not None]
        if not r:
            return None
        ps = [parsed(x) for x in r]
        return None if any(p is None for p in ps) else all(ps)
    return None


def okpart(v):
    if isagg(v):
        return agg_get(v, "0") if v.a[1] == "Ok" else None
    return v


def effs_loops(effs):
    for e in effs:
        if e.kind == "loop":
            yield e
            for it in e.x["iters"]:
                yield from effs_loops(it.effs)


def r_get(cx, R="content"):
    cx.rule(R, "get_content(i) is 'no such content' exactly when i is not below the count announced, and otherwise the blob that entry i of the content table designates in the cluster "
               "that entry designates; a cluster is cached under its own index and read where its entry of the cluster table tells")
    k = cx.m("ContentPack", "get_content", "")
    ti, hf = table_of(cx, "ContentInfo"), header_field(cx)
    cnt, ncl = F(F(A[0], hf), "content_count"), F(F(A[0], hf), "cluster_count")
    late = None
    some = none = 0
    for t in cx.traces(k, stop=[IDX, r"Reader::parse_data_block", r"Cluster::get_bytes"]):
        cases = [(i, n) for i, n in ((0, 0), (0, 1), (1, 1), (2, 1), (4, 5), (5, 5), (4095, 4096), (4096, 4096), (70000, 70001), (70001, 70001), (70002, 70001)) if consistent(t.bnd, t.facts, {A[1]: i, cnt: n})]
        if t.kind != "ret" or isagg(t.val) and t.val.a[1] == "Err" or not isagg(t.val):
            cx.ob(R, k, "an address past the count is not an error", not [1 for i, n in cases if i >= n], "index %s of %s ends in %s" % (cases[:1], "", t.kind))
            if t.kind == "ret" and isagg(t.val) and any(i < n for i, n in cases):
                # an error is one of the steps, or a cluster index past the announced count
                er = [x for x in walk(t.val) if x.op == "pl" and x.a[1] == "Err"]
                ci = [x for x in walk_bnd(t) if x.op == "fld" and x.a[1] == "cluster_index"]
                if not er:
                    good = bool(ci) and not any(consistent(t.bnd, t.facts, {A[1]: 0, cnt: 1, ci[0]: a, ncl: b}) for a, b in ((0, 1), (1, 2), (4, 5), (70000, 70001), ((1 << 20) - 2, (1 << 20) - 1)))
                    cx.ob(R, k, "an existing content is not refused", good, "refused with %s" % show(t.val)[:200])
            continue
        v = okval(t)
        if isagg(v) and v.a[1] == "None":
            none += 1
            cx.ob(R, k, "none only past the count", not [1 for i, n in cases if i < n], "content %s is said not to exist" % [x for x in cases if x[0] < x[1]][:1])
            continue
        v = agg_get(v, "0") if isagg(v) else mk("pl", v, "Some", "0")
        some += 1
        cx.ob(R, k, "some only below the count", not [1 for i, n in cases if i >= n], "content %s is said to exist" % [x for x in cases if x[0] >= x[1]][:1])
        v = v.a[0] if v.op == "pl" and v.a[1] == "Ok" else v
        if not (v.op == "call" and v.a[0].endswith("Cluster::get_bytes")):
            late = late or "what get_content returns: %s" % show(v)[:150]
            continue
        cl, blob = v.a[1][0], unconv(v.a[1][1])
        es = list(flat(t.effs))
        ix = [e for e in es if e.kind == "call" and IDX.search(e.name) and e.args[0] is F(A[0], ti)]
        if len(ix) != 1:
            late = late or "%d look-ups in the content table" % len(ix)
            continue
        info = ok_of(ix[0].res)
        cx.ob(R, k, "the entry asked", unconv(ix[0].args[1]) is A[1], "entry %s is read" % show(ix[0].args[1]))
        cx.ob(R, k, "the blob of that entry", blob is fld(info, "blob_index"), "blob %s" % show(blob)[:160])
        if any(OTHER.search(e.name) and not LOOK.search(e.name) for e in es if e.kind == "call"):
            late = late or "use of the cluster cache"
            continue
        g = inner_cluster(cx, R, k, t, cl, fld(info, "cluster_index"), es)
        if g is None:
            late = late or "cluster of a content: %s" % show(cl)[:160]
            continue
        cx.ob(R, k, "the cluster of that entry", g, "cluster %s" % show(cl)[:260])
        for e in es:
            if e.kind == "call" and LPUT.search(e.name):
                p = inner_cluster(cx, R, k, t, e.args[2], unconv(e.args[1]), es)
                if p is None:
                    late = late or "cached cluster: %s" % show(e.args[2])[:160]
                    continue
                cx.ob(R, k, "cached under its own index", p, "index %s caches %s" % (show(e.args[1])[:100], show(e.args[2])[:200]))
    cx.ob(R, k, "both answers", none >= 1 and some >= 1 or late, "%d paths answer none, %d some" % (none, some))
    k = cx.m("ContentPack", "get_content_count", "")
    for t in cx.traces(k):
        cx.ob(R, k, "count", unconv(t.val) is cnt, "the count is %s" % show(t.val)[:100])
    if late:
        raise Anchor(late)


def walk_bnd(t):
    for z in list(t.bnd) + list(t.facts):
        yield from walk(z)


# ---- tail of a cluster --------------------------------------------------------------------
def stored(it):
    """values one iteration appends or writes: [(position term or None, value)]"""
    r = []
    for e in it.effs:
        if e.kind == "yield":
            r.append((None, e.args[-1]))
        elif e.kind == "call" and e.name.endswith("::write") and len(e.args) == 2 and e.args[0].op == "idx":
            r.append((e.args[0].a[1], e.args[1]))
    for lv, nx in it.next.items():
        st = []
        y = nx
        while y.op == "push":
            st.append((None, y.a[1]))
            y = y.a[0]
        if y is lv or st and y.op in ("lv", "upd", "hv"):
            r += st[::-1]
    return r


def simulate(le, fixed, reads, limit):
    """values a loop stores, its reads answered in order, by evaluating the summaries of its iterations; None when they do not decide"""
    env = {}
    for lv, v in le.x["init"].items():
        x = evs(v, fixed)
        if x is not None:
            env[lv] = x
    out, rd = [], list(reads)
    for step in range(limit + 3):
        cand = []
        for it in le.x["iters"]:
            e2 = {**fixed, **env}
            cs = [e for e in it.effs if e.kind == "call" and re.search(READ, e.name)]
            for j, e in enumerate(cs):
                if j < len(rd):
                    e2[ok_of(e.res)] = rd[j]
            if not consistent(it.bnd, it.facts, e2):
                continue
            if any(e2.get(f, b) != int(b) for f, b in it.facts.items() if f in e2):
                continue
            cand.append((it, cs, e2))
        if not cand:
            return out, env, len(reads) - len(rd)
        if len(cand) > 1:
            return None
        it, cs, e2 = cand[0]
        if len(cs) > len(rd):
            return out, None, None
        for p, v in stored(it):
            x = evs(v, e2)
            out.append((None if p is None else evs(p, e2), x))
        rd = rd[len(cs):]
        new = {}
        for lv in env:
            nx = it.next.get(lv)
            new[lv] = evs(nx, e2) if nx is not None else None
        env = {a: b for a, b in new.items() if b is not None}
    return None


def r_tail(cx, R="cluster read"):
    cx.rule(R, "the tail of a cluster is read as it is written: after the header, the stored size, the plain size, then the end offset of every blob but the last, all in the width the header "
               "announces; blob i starts where blob i-1 ends, the first at 0, and the last ends at the plain size; no tail a creator writes is refused; the data of a cluster is the stored size "
               "bytes before its tail, read as they are when not compressed")
    ks = cx.keys(r"ClusterBuilder as .*Parsable>::parse")
    if not ks:
        raise Anchor("parsing of the tail of a cluster")
    k = ks[0]
    late = None
    n = 0
    ts = cx.traces(k, stop=[r"ClusterHeader as .*parse"])
    for t in ts:
        es = [e for e in t.effs if e.kind == "call"]
        hd = [e for e in es if e.name.endswith("::parse") and e.args]
        if not hd:
            late = late or "header of a cluster"
            continue
        H = ok_of(hd[0].res)
        rd = [e for e in es if re.search(READ, e.name)]
        good = not (t.kind != "ret" or isagg(t.val) and t.val.a[1] == "Err")
        if not good:
            # an error or a panic must not be possible for a tail that a creator writes
            failed = [x for x, (lo, hi, ex) in t.bnd.items() if x.op == "discr" and lo == 1 and hi == 1 and x.a[0].op == "call" and re.search(r"::(read_\w+|parse|skip)$", x.a[0].a[0])]
            if failed:
                continue
            lr = [y for y in walk_bnd(t) if y.op == "pl" and y.a[1] == "Ok" and y.a[0].op == "call" and re.search(READ, y.a[0].a[0])]
            outer = [ok_of(e.res) for e in rd][:2]
            inner = [y for y in lr if y not in outer]
            if len(outer) < 2:
                late = late or "sizes in the tail of a cluster"
                continue
            for comp, raw, data, off in ((0, 10, 10, 0), (0, 10, 10, 10), (0, 10, 10, 4), (0, 0, 0, 0), (1, 7, 10, 10), (1, 7, 10, 9), (2, 25, 10, 10), (3, 25, 10, 0), (3, 14, 0, 0), (1, 15, 0, 0)) + BIG:
                env = {outer[0]: raw, outer[1]: data, mk("discr", fld(H, "compression")): comp, unconv(fld(H, "blob_count")): 3}
                for y in inner:
                    env[y] = off
                if consistent(t.bnd, t.facts, env):
                    cx.ob(R, k, "no valid tail is refused", False, "a tail with stored size %d, plain size %d, an end offset %d, compression %d ends in %s" % (raw, data, off, comp, t.kind if t.kind != "ret" else "an error"))
            cx.ob(R, k, "refusals judged", True, "")
            continue
        n += 1
        W = fld(H, "offset_size")
        if len(rd) != 2:
            late = late or "%d numbers read before the end offsets" % len(rd)
            continue
        allr = rd + [e for e in flat(t.effs) if e.kind == "call" and re.search(READ, e.name) and e not in rd]
        cx.ob(R, k, "numbers in the width announced", all(e.args[1] is W or unconv(e.args[1]) is W for e in allr), "reads widths %s" % [show(e.args[1])[-60:] for e in allr])
        raw, data = ok_of(rd[0].res), ok_of(rd[1].res)
        v = okval(t)
        if not (v.op == "agg" and isagg(agg_get(v, "0"), "ClusterBuilder")):
            late = late or "parsed tail: %s" % show(v)[:120]
            continue
        cb = agg_get(v, "0")
        cx.ob(R, k, "stored size, then plain size", unconv(agg_get(v, "1")) is raw and unconv(fld(cb, "data_size")) is data, "stored %s plain %s" % (show(agg_get(v, "1"))[-90:], show(fld(cb, "data_size"))[-90:]))
        cx.ob(R, k, "compression announced", fld(cb, "compression") is fld(H, "compression") or cval(fld(cb, "compression")) is not None, show(fld(cb, "compression"))[-90:])
        ls = [e for e in t.effs if e.kind == "loop"]
        if len(ls) != 1:
            late = late or "end offsets of a cluster: %d loops" % len(ls)
            continue
        bc = unconv(fld(H, "blob_count"))
        for cnt, given, comp, stored_ in ((1, [], 0, 9), (2, [3], 0, 9), (4, [3, 5, 8], 0, 9), (1, [], 1, 5), (2, [3], 2, 21), (4, [3, 5, 8], 3, 13)):
            fixed = {bc: cnt, fld(H, "blob_count"): cnt, data: 9, raw: stored_, mk("discr", fld(H, "compression")): comp}
            if not consistent(t.bnd, t.facts, fixed):
                continue
            sm = simulate(ls[0], fixed, given + [77], cnt)
            if sm is None or sm[1] is None:
                late = late or "end offsets of a cluster are not decided"
                continue
            out, env, used = sm
            if not consistent(t.bnd, t.facts, {**fixed, **env}):
                late = late or "end of the offsets of a cluster"
                continue
            ps = [p for p, x in out if p is not None]
            bo = fld(cb, "blob_offsets")
            tail = []
            while bo.op == "push":
                tail.insert(0, evs(bo.a[1], fixed))
                bo = bo.a[0]
            pre = []
            for lv, i0 in ls[0].x["init"].items():
                y = i0
                while y.op == "push":
                    pre.insert(0, evs(y.a[1], fixed))
                    y = y.a[0]
            if None in tail or None in pre or any(x is None for p, x in out):
                late = late or "values of the end offsets"
                continue
            lst = pre + [x for p, x in out] + tail
            cx.ob(R, k, "%d blobs: offsets" % cnt, lst == [0] + given + [9] and used == len(given) and (not ps or ps == list(range(len(out)))), "end offsets %s and plain size 9 give %s (places %s), %d read" % (given, lst, ps, used))
            sl = [e for e in es if e.name.endswith("::set_len")]
            if ps:
                cx.ob(R, k, "%d blobs: length" % cnt, len(sl) == 1 and evs(unconv(sl[0].args[1]), fixed) == cnt, "length %s" % [show(e.args[1])[-60:] for e in sl])
    if not n:
        late = late or "%s: no path" % k
    k = cx.m("Cluster", "finalize", "DataBlockParsable")
    cb, raw, off = F(A[0], "0"), F(A[0], "1"), A[1]
    m = 0
    for t in cx.traces(k, stop=[r"Reader::cut"]):
        comp = mk("discr", fld(cb, "compression"))
        if t.kind != "ret":
            ok_ = not any(consistent(t.bnd, t.facts, {comp: x, raw: r_, fld(cb, "data_size"): d}) for x, r_, d, o_ in ((0, 10, 10, 0), (0, 0, 0, 0), (1, 7, 10, 0), (2, 25, 10, 0), (3, 9, 0, 0)) + BIG)
            cx.ob(R, k, "no valid cluster is refused", ok_, "a cluster with consistent sizes ends in a panic")
            continue
        if isagg(t.val) and t.val.a[1] == "Err":
            cx.ob(R, k, "errors are those of the file", any(x.op == "pl" and x.a[1] == "Err" for x in walk(t.val)), "refused with %s" % show(t.val)[:160])
            continue
        m += 1
        v = okval(t)
        cs = calls(t, re.compile(r"Reader::cut$"))
        if len(cs) != 1 or not isagg(v, "Cluster"):
            late = late or "data of a cluster: %s" % show(v)[:120]
            continue
        a = cs[0].args
        cx.ob(R, k, "the stored size bytes before the tail", base_obj(a[0]) is A[2] and teq(t, a[1], sub(off, raw)) and teq(t, a[2], raw), "the data is %s, %s bytes" % (show(a[1]), show(a[2])))
        cx.ob(R, k, "as parsed", all(fld(v, f) is fld(cb, f) for f in ("blob_offsets", "data_size", "compression")), show(v)[:200])
        rr = lock_content(fld(v, "reader"))
        if not isagg(rr):
            late = late or "reader of a cluster: %s" % show(rr)[:120]
            continue
        plain = consistent(t.bnd, t.facts, {comp: 0})
        packed_ = any(consistent(t.bnd, t.facts, {comp: x}) for x in (1, 2, 3))
        cx.ob(R, k, "read as it is exactly when not compressed", (rr.a[1] == "Plain") == plain and (rr.a[1] == "Raw") == packed_ and agg_get(rr, "0") is ok_of(cs[0].res), "compression %s gives %s" % ("none" if plain else "some", show(rr)[:100]))
    if not m:
        late = late or "%s: no path" % k
    if late:
        raise Anchor(late)


def lock_content(v):
    while v.op in ("mutex", "newlock"):
        v = v.a[0]
    if isagg(v) and v.a[1] not in ("Plain", "Raw") and len(v.a) > 2:
        x = agg_get(v, "0")
        if x is not None:
            return lock_content(x)
    return v


def r_blob(cx, R="blob"):
    cx.rule(R, "blob i of a cluster is the bytes from the end of blob i-1 to its own end in the plain data; the plain data of a compressed cluster is what the decoder its compression announces "
               "makes of all its stored bytes, of the plain size announced; it replaces the stored data under the lock and only once")
    k = cx.m("Cluster", "get_bytes", "")
    off, comp, ds = F(A[0], "blob_offsets"), mk("discr", F(A[0], "compression")), F(A[0], "data_size")
    late = None
    n, seen = 0, set()
    ts = cx.traces(k, stop=[r"Reader::create_stream", r"SeekableDecoder.*::new$"], paths=True)
    for t in oks(ts):
        n += 1
        v = okval(t)
        states = [e.args[0] for e in flat(t.effs) if e.kind == "drop" and re.search(r"Guard<", e.name + str(e.full or "")) and e.args]
        lk = [x for x in walk(v) if x.op == "locked"]
        new = None
        for s in states:
            if isagg(s) and s.a[1] in ("Plain", "Raw"):
                if s.a[1] == "Raw":
                    cx.ob(R, k, "a cluster does not go back to its stored data", False, show(s)[:200])
                    continue
                r = agg_get(s, "0")
                new = r
                dec = [x for x in walk(r) if x.op == "call" and re.search(r"SeekableDecoder.*::new$", x.a[0])]
                if len(dec) != 1:
                    late = late or "plain data of a cluster: %s" % show(r)[:160]
                    continue
                src, size = dec[0].a[1][0], dec[0].a[1][1]
                cx.ob(R, k, "plain size", unconv(size) is ds, "decoded to %s bytes" % show(size)[:100])
                if isagg(r, "Reader"):
                    rg = fld(r, "region")
                    cx.ob(R, k, "whole plain data", fld(rg, "begin") is c(0) and unconv(fld(rg, "end")) is ds, "the plain data is %s" % show(rg)[:160])
                st = [x for x in walk(src) if x.op == "call" and x.a[0].endswith("create_stream")]
                if len(st) != 1:
                    late = late or "stored data of a cluster: %s" % show(src)[:160]
                    continue
                rr, o, z = st[0].a[1][0], st[0].a[1][1], st[0].a[1][2]
                raw = rr.op == "pl" and rr.a[1] == "Raw" and rr.a[0].op == "locked"
                cx.ob(R, k, "all its stored bytes", raw and o is c(0) and z is sub(F(rr, "region", "end"), F(rr, "region", "begin")), "decodes %s bytes at %s of %s" % (show(z)[:120], show(o), show(rr)[:80]))
                for x in walk(src):
                    if x.op == "call" and re.search(r"Stream::new_\w*decoder$", x.a[0]) and cval(x.a[1][0]) is not None:
                        cx.ob(R, k, "memory for any dictionary", cval(x.a[1][0]) >= (65 << 20), "the decoder may use %s bytes" % show(x.a[1][0]))
                    if x.op == "call" and x.a[0].endswith("window_log_max") and cval(x.a[1][-1]) is not None:
                        cx.ob(R, k, "room for any window", cval(x.a[1][-1]) >= 27, "the decoder accepts windows of 2^%s bytes" % show(x.a[1][-1]))
                crate = {cd for cd, rx in CODEC.items() for x in walk(src) if x.op == "call" and re.search(rx, x.a[0])}
                want = [cd for cd in (0, 1, 2, 3) if consistent(t.bnd, t.facts, {comp: cd})]
                if len(want) != 1 or len(crate) != 1:
                    late = late or "decoder of a cluster: %s for %s" % (crate, want)
                    continue
                seen.add(want[0])
                cx.ob(R, k, "decoder announced", want[0] in crate, "compression %s is decoded by %s" % (want, crate))
                lzst = [x for x in walk(src) if x.op == "call" and re.search(r"(take|skip|chain|by_ref)$", x.a[0])]
                if lzst:
                    late = late or "bytes given to the decoder: %s" % show(src)[:160]
            elif s.op != "locked":
                late = late or "state of a cluster: %s" % show(s)[:120]
        sr, rg = fld(v, "source"), fld(v, "region")
        rd = sr.a[0] if sr.op == "fld" else None
        if rd is None or not (rd.op == "pl" and rd.a[1] == "Plain" and rd.a[0].op == "locked"):
            if new is None or sr is not fld(new, "source"):
                late = late or "source of a blob: %s" % show(sr)[:120]
                continue
            rb = fld(fld(new, "region"), "begin")
        else:
            rb = F(rd, "region", "begin")
        i = [x for x in walk(rg) if x.op == "idx"]
        if not i:
            late = late or "range of a blob: %s" % show(rg)[:160]
            continue
        cx.ob(R, k, "begin", fld(rg, "begin") is add(rb, mk("idx", off, A[1])), "blob i starts at %s" % show(fld(rg, "begin"))[:160])
        cx.ob(R, k, "end", fld(rg, "end") is add(rb, mk("idx", off, add(A[1], c(1)))), "blob i ends at %s" % show(fld(rg, "end"))[:160])
    variant = {i: v["name"] for i, v in enumerate(adt(cx, "ClusterReader")["variants"])}
    for t in ts:
        if t.kind == "panic" and cx.mode == "release":     # a debug build also panics on its own arithmetic checks
            hist = lock_history(t, variant)
            if hist is None:
                late = late or "states of a cluster on a path which panics"
                continue
            # stored data is only ever replaced by plain data; only a compressed cluster has stored data
            possible = "Raw" not in hist[next((i for i, x in enumerate(hist) if x == "Plain"), len(hist)):]
            packed_ = any(consistent(t.bnd, t.facts, {comp: x}) for x in (1, 2, 3))
            cx.ob(R, k, "no order of its readers panics", not possible or not packed_ and "Raw" in hist, "a reader of a compressed cluster panics when it is found %s under its lock" % ", then ".join(x or "in any state" for x in hist))
    if not n:
        late = late or "%s: no path" % k
    cx.ob(R, k, "all decoders", seen == {1, 2, 3} or late, "%s" % sorted(seen))
    if late:
        raise Anchor(late)


def lock_history(t, variant):
    """states of the locked object along a path: as found under each lock and as left, None where not decided; None when more than one object is locked"""
    r, seen = [], {}
    for e in t.effs:
        if e.kind == "lock":
            m = e.args[0]
            n = seen.get(m, 0)
            seen[m] = n + 1
            d = [(lo, hi) for x, (lo, hi, ex) in t.bnd.items() if x.op == "discr" and x.a[0].op == "locked" and x.a[0].a == (m, n)]
            r.append(variant.get(d[0][0]) if d and d[0][0] == d[0][1] else None)
        elif e.kind == "drop" and re.search(r"Guard<", e.name + str(e.full or "")) and e.args and isagg(e.args[0]):
            r.append(e.args[0].a[1])
        elif e.kind == "loop" and any(x.kind == "lock" for it in e.x["iters"] for x in it.effs):
            return None
    return r if len(seen) == 1 else None


READER = [("tables", r_open), ("content", r_get), ("cluster read", r_tail), ("blob", r_blob)]


# ---- where the bytes of an input come from ------------------------------------------------
def seek_pos(x):
    """(variant, payload) of a SeekFrom"""
    return (x.a[1], agg_get(x, "0")) if isagg(x) else (None, None)


def told(x, seeks):
    """a position: the one told by a move from the start is the one asked"""
    for e in seeks:
        if x is not None and x is ok_of(e.res) and seek_pos(e.args[1])[0] == "Start":
            return seek_pos(e.args[1])[1]
    return x


def r_inputs(cx, R="inputs"):
    cx.rule(R, "an input file is the `len` bytes from `origin` of its file: made so, positioned at its origin, read only up to its end and from where it stands, and handed over as exactly that range; "
               "an input in memory is all its bytes")
    late = None
    flds = ("source", "origin", "len", "position")
    have = [f[0] for f in adt(cx, "InputFile")["variants"][0]["fields"]]
    if any(f not in have for f in flds):
        raise Anchor("fields of an input file: %s" % have)
    o, ln, p, src = (F(A[0], f) for f in ("origin", "len", "position", "source"))
    k = cx.m("InputFile", "new_range", "")
    for t in oks(cx.traces(k, paths=True)):
        v = okval(t)
        es = [e for e in flat(t.effs) if e.kind == "call"]
        sk = [e for e in es if e.name.endswith("Seek::seek") and base_obj(e.args[0]) is A[0]]
        if not isagg(v, "InputFile") or not sk:
            late = late or "input file made: %s" % show(v)[:120]
            continue
        at = told(fld(v, "position"), sk)
        cx.ob(R, k, "begins where asked", fld(v, "origin") is A[1] and at is A[1], "origin %s position %s" % (show(fld(v, "origin")), show(fld(v, "position"))))
        sv, sp = seek_pos(sk[-1].args[1])
        cx.ob(R, k, "positioned at its origin", sv == "Start" and sp is A[1] and base_obj(fld(v, "source")) is A[0], "the file stands at %s" % show(sk[-1].args[1])[:120])
        some = t.E.decide(t.st, eq(mk("discr", A[2]), c(1)))
        if some is True:
            cx.ob(R, k, "of the size asked", fld(v, "len") is mk("pl", A[2], "Some", "0"), "size %s" % show(fld(v, "len")))
        elif some is False:
            ends = [e for e in es if e.name.endswith("Seek::seek") and seek_pos(e.args[1])[0] == "End" and seek_pos(e.args[1])[1] is c(0)]
            lens = [ok_of(e.res) for e in ends] + [x for x in walk(fld(v, "len")) if x.op == "call" and re.search(r"Metadata::len$", x.a[0])]
            cx.ob(R, k, "to the end of the file", any(fld(v, "len") is sub(x, A[1]) for x in lens), "size %s" % show(fld(v, "len")))
        else:
            late = late or "size of an input file"
    for name in ("new", "open"):
        try:
            k = cx.m("InputFile", name, "")
        except Anchor:
            continue
        for t in oks(cx.traces(k, paths=True)):
            v = okval(t)
            es = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("Seek::seek")]
            if not isagg(v, "InputFile") or not es:
                late = late or "whole input file made: %s" % show(v)[:120]
                continue
            sv, sp = seek_pos(es[-1].args[1])
            ends = [ok_of(e.res) for e in es if seek_pos(e.args[1])[0] == "End" and seek_pos(e.args[1])[1] is c(0)]
            lens = ends + [x for x in walk(fld(v, "len")) if x.op == "call" and re.search(r"Metadata::len$", x.a[0])]
            cx.ob(R, k, "%s: from the start" % name, fld(v, "origin") is c(0) and told(fld(v, "position"), es) is c(0) and sv == "Start" and sp is c(0),
                  "origin %s position %s, the file at %s" % (show(fld(v, "origin")), show(fld(v, "position")), show(es[-1].args[1])))
            cx.ob(R, k, "%s: the whole file" % name, any(fld(v, "len") is x for x in lens), "size %s" % show(fld(v, "len")))
    k = cx.m("InputFile", "seek", "Seek")
    for t in oks(cx.traces(k, paths=True)):
        sk = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("Seek::seek")]
        if len(sk) != 1:
            late = late or "seek in an input file"
            continue
        fin = final(t, A[0])
        sv, sp = seek_pos(sk[0].args[1])
        d = mk("discr", A[1])
        i = [n for n in (0, 1, 2) if t.E.decide(t.st, eq(d, c(n))) is not False]
        if len(i) != 1:
            late = late or "seek in an input file: from where"
            continue
        what = ("Start", "End", "Current")[i[0]]
        x = mk("pl", A[1], what, "0")
        if what == "Current" and sv == "Current":
            good = sp is x
        elif sv == "Start":
            good = True
            for oo, ll, pp, xx in ((0, 10, 0, 0), (100, 10, 103, 0), (100, 10, 103, 4), (7, 5, 9, 1), (7, 5, 12, 2)):
                xs = -xx if what == "End" else xx
                want = {"Start": oo + xx, "End": oo + ll + xs, "Current": pp + xx}[what]
                got = evs(sp, {o: oo, ln: ll, p: pp, x: xs})
                if got is None:
                    late = late or "seek in an input file: %s" % show(sp)[:120]
                    break
                good = good and got == want
        else:
            good = False
        cx.ob(R, k, "%s: in the range" % what, good, "the file is sought at %s" % show(sk[0].args[1])[:200])
        cx.ob(R, k, "%s: position kept" % what, fld(fin, "position") is ok_of(sk[0].res) or sv == "Start" and fld(fin, "position") is sp, "position becomes %s" % show(fld(fin, "position"))[:160])
    for k in cx.keys(r"InputFile as .*Seek>::rewind( \[|$)"):
        for t in oks(cx.traces(k, paths=True)):
            sk = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("Seek::seek")]
            if not sk:
                if not any(e.kind == "call" for e in flat(t.effs)):
                    cx.ob(R, k, "rewind", False, "the file stays where it is")
                else:
                    late = late or "rewind of an input file"
                continue
            sv, sp = seek_pos(sk[-1].args[1])
            got = [evs(sp, {o: oo, ln: 10, p: oo + 3}) for oo in (0, 7, 100)] if sv == "Start" else []
            if sv == "Start" and None in got:
                late = late or "rewind of an input file: to %s" % show(sp)[:100]
                continue
            cx.ob(R, k, "rewind", got == [0, 7, 100], "an input starting at 0, 7 or 100 is rewound to %s" % (got or sv))
            at = fld(final(t, A[0]), "position")
            cx.ob(R, k, "rewind: position kept", at is ok_of(sk[-1].res) or at is sp or at is o, "position becomes %s" % show(at)[:160])
    for k in cx.keys(r"InputFile as .*Seek>::stream_position( \[|$)"):
        for t in oks(cx.traces(k, paths=True)):
            v = okval(t)
            got = [evs(v, {o: oo, ln: 10, p: oo + 3}) for oo in (0, 7, 100)]
            if None in got:
                late = late or "position in an input file: %s" % show(v)[:100]
                continue
            cx.ob(R, k, "position told", got == [3, 3, 3], "3 bytes after 0, 7 or 100 is said to be at %s" % got)
    k = cx.m("InputFile", "read", "Read")
    n = 0
    for t in oks(cx.traces(k, paths=True)):
        rd = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"Read::read\w*$", e.name)]
        fin = final(t, A[0])
        if not rd:
            # nothing read: only at the end of the range, or for an empty buffer
            bad = [s for s in ((0, 10, 0, 4), (100, 10, 104, 4), (100, 10, 109, 1)) if consistent(t.bnd, t.facts, {o: s[0], ln: s[1], p: s[2], mk_len(A[1]): s[3]})]
            cx.ob(R, k, "reads while bytes are left", not bad and okval(t) is c(0), "nothing is read although bytes are left")
            continue
        if len(rd) != 1 or not rd[0].name.endswith("Read::read"):
            late = late or "read from an input file"
            continue
        n += 1
        buf = rd[0].args[1]
        if base_obj(buf) is not A[1] and buf is not A[1] and not (buf.op == "slice" and buf.a[0] is A[1]):
            late = late or "read from an input file into %s" % show(buf)[:120]
            continue
        b0, b1 = (buf.a[1], buf.a[2]) if buf.op == "slice" else (c(0), mk_len(A[1]))
        cx.ob(R, k, "from the file, to the start of the buffer", base_obj(rd[0].args[0]) is src or base_obj(rd[0].args[0]) is A[0], "reads %s" % show(rd[0].args[0])[:120])
        for oo, ll, pp, z in ((0, 10, 0, 4), (0, 10, 0, 40), (100, 10, 104, 3), (100, 10, 104, 6), (100, 10, 104, 7), (100, 10, 110, 5), (5, 0, 5, 9)):
            env = {o: oo, ln: ll, p: pp, mk_len(A[1]): z}
            if not consistent(t.bnd, t.facts, env):
                continue
            w0, w1 = evs(b0, env), evs(b1, env)
            if w0 is None or w1 is None:
                late = late or "bytes asked: %s" % show(buf)[:120]
                continue
            cx.ob(R, k, "no more than is left", w0 == 0 and w1 <= ll + oo - pp, "%d bytes at %d of the range [%d, %d): asks for [%d, %d)" % (z, pp, oo, oo + ll, w0, w1))
            cx.ob(R, k, "some while bytes are left", w1 > 0 or min(z, ll + oo - pp) == 0, "%d bytes are left and %d asked, nothing is read" % (ll + oo - pp, z))
        got = ok_of(rd[0].res)
        cx.ob(R, k, "advances by what was read", fld(fin, "position") is add(p, got), "position becomes %s" % show(fld(fin, "position"))[:160])
        cx.ob(R, k, "answers what was read", okval(t) is got, "returns %s" % show(okval(t))[:120])
    cx.ob(R, k, "reads", n >= 1 or late, "no path reads")
    k = cx.m("InputFile", "size", "InputReader")
    for t in cx.traces(k):
        cx.ob(R, k, "size", unconv(t.val) is ln, "size %s" % show(t.val))
    k = cx.m("InputFile", "get_file_source", "InputReader")
    for t in [x for x in cx.traces(k) if x.kind == "ret"]:
        v = t.val
        es = [e for e in flat(t.effs) if e.kind == "call"]
        tk = [e for e in es if e.name.endswith("Read::take")]
        sk = [e for e in es if re.search(r"Seek::(seek|rewind)$", e.name)]
        if not isagg(v) or v.a[1] not in ("Yes", "No"):
            late = late or "what is copied of an input file: %s" % show(v)[:100]
            continue
        if v.a[1] == "No":
            cx.ob(R, k, "range of the file", base_obj(agg_get(v, "0")) is A[0], show(v)[:160])
            continue
        at = False
        if sk:
            if sk[-1].name.endswith("rewind"):
                at = base_obj(sk[-1].args[0]) is A[0] and not (sk[-1].args[0].op == "fld" and sk[-1].args[0].a[1] == "source")
            else:
                sv, sp = seek_pos(sk[-1].args[1])
                onfile = "source" in show(sk[-1].args[0])
                at = sv == "Start" and (sp is o if onfile else sp is c(0))
        cx.ob(R, k, "from the origin", at, "handed over without being put at its origin")
        lim = unconv(tk[0].args[1]) if len(tk) == 1 else None
        lim_ok = lim is not None and (lim is ln or lim.op == "fld" and lim.a[1] == "len" and base_obj(lim.a[0]) is A[0])
        cx.ob(R, k, "its size", lim_ok and agg_get(v, "0") is tk[0].res and "source" in show(tk[0].args[0]), "handed over: %s" % show(v)[:200])
    n = 0
    for k in cx.keys(r"Cursor<.*InputReader>::(size|get_file_source)"):
        if not cx.fn(k).get("root"):
            continue
        n += 1
        for t in cx.traces(k):
            if t.kind != "ret":
                continue
            if "::size" in k:
                z = unconv(t.val)
                cx.ob(R, k, "memory: size", z.op == "len" and not any(x.op == "call" and not re.search(r"::(get_ref|as_ref|get_mut)$", x.a[0]) for x in walk(z)), "size %s" % show(z)[:160])
            else:
                cx.ob(R, k, "memory: itself", isagg(t.val) and t.val.a[1] == "No" and agg_get(t.val, "0") is A[0], "hands over %s" % show(t.val)[:160])
    cx.ob(R, "crate", "inputs in memory", n >= 2, "%d methods" % n)
    if late:
        raise Anchor(late)


def r_copy(cx, R="copy"):
    cx.rule(R, "copying an input to a stream copies what the input hands over, once and to its end, to that stream, and answers the number of bytes copied; wrappers pass the input on")
    ks = [k for k in cx.keys(r"OutStream(>| for .*>)::copy") if cx.fn(k).get("root")]
    late = None
    n = 0
    for k in ks:
        for t in oks(cx.traces(k, stop=["get_file_source", r"OutStream.*::copy$"])):
            es = [e for e in flat(t.effs) if e.kind == "call"]
            fw = [e for e in es if re.search(r"OutStream.*::copy$", e.name)]
            gs = [e for e in es if e.name.endswith("get_file_source")]
            cp = [e for e in es if e.name.endswith("io::copy::copy")]
            if fw:
                n += 1
                cx.ob(R, k, "passed on", len(fw) == 1 and fw[0].args[1] is A[1] and contains(fw[0].args[0], lambda x: x is A[0]) and not cp and (t.val is fw[0].res or okval(t) is ok_of(fw[0].res)), "%s" % [show(a)[:80] for a in fw[0].args])
                continue
            if len(gs) != 1 or not cp:
                late = late or "%s: how it copies" % k
                continue
            n += 1
            S = gs[0].res
            d = [i for i, nm in enumerate(("Yes", "No")) if t.E.decide(t.st, eq(mk("discr", S), c(i))) is not False]
            nm = ("Yes", "No")[d[0]] if len(d) == 1 else None
            if nm is None or len(cp) != 1:
                late = late or "%s: what it copies" % k
                continue
            cx.ob(R, k, "what the input hands over", gs[0].args[0] is A[1] and base_obj(cp[0].args[0]) in (mk("pl", S, nm, "0"), S) and not any(x.op == "call" and re.search(r"::(take|skip|chain)$", x.a[0]) for x in walk(cp[0].args[0]) if x is not S), "copies %s" % show(cp[0].args[0])[:160])
            cx.ob(R, k, "to this stream", base_obj(cp[0].args[1]) is A[0], "copies to %s" % show(cp[0].args[1])[:120])
            v = okval(t)
            cx.ob(R, k, "number of bytes", v.op == "agg" and agg_get(v, "0") is ok_of(cp[0].res), "answers %s" % show(v)[:160])
    cx.ob(R, "crate", "streams", n >= 5 or late, "%d" % n)
    if late:
        raise Anchor(late)


def at_start(t, e):
    """the caller's reader stands at its start when e is done"""
    last = None
    for x in flat(t.effs):
        if x is e:
            break
        if x.kind == "call" and x.args and base_obj(x.args[0]) is A[1] and re.search(r"(Seek|Read)::\w+$", x.name) and not x.name.endswith("Read::by_ref"):
            last = x
        elif x.kind == "call" and any(base_obj(a) is A[1] for a in x.args[1:]) and not x.name.endswith("size"):
            last = x
    return last is not None and (last.name.endswith("Seek::rewind") or last.name.endswith("Seek::seek") and seek_pos(last.args[1])[0] == "Start" and seek_pos(last.args[1])[1] is c(0))


def r_start(cx, R="from the start"):
    cx.rule(R, "a content is stored from its start, whatever was read of it before: nothing is read after it was last put at its start")
    k = cx.m("ContentPackCreator", "add_content", "")
    n = 0
    late = None
    for t in oks(cx.traces(k, stop=["get_open_cluster", "shannon_entropy"], paths=True)):
        ps = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::push") and len(e.args) == 2 and base_obj(e.args[1]) is A[1]]
        if len(ps) != 1:
            late = late or "%d places take the content" % len(ps)
            continue
        n += 1
        v = ps[0].args[1]
        ops = [e for e in flat(t.effs) if e.kind == "call" and e.args and base_obj(e.args[0]) is A[1] and re.search(r"(Seek|Read)::\w+$", e.name)]
        last = ops[-1] if ops else None
        at = last is not None and (last.name.endswith("Seek::rewind") or last.name.endswith("Seek::seek") and seek_pos(last.args[1])[0] == "Start" and seek_pos(last.args[1])[1] is c(0))
        cx.ob(R, k, "put at its start", at, "the content is stored from where it stands%s" % (" after %s" % last.name.split("::")[-1] if last else ""))
    if late or not n:
        raise Anchor(late or "%s: no path" % k)


CREATOR = [("inputs", r_inputs), ("copy", r_copy), ("from the start", r_start)]
