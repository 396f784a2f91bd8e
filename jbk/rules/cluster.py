"""Clusters: how the writer thread and the compression workers put them in the content pack (shared by C01, C08, C14)."""
from .core import *
from .wire import *
from .layout import *

STOPS = ("needed_bytes$", "write_serializer")
TELL = re.compile(r"(Seek::stream_position|OutStream::tell)$")
NUM = re.compile(r"(Seek::stream_position|OutStream::tell|write_serializer|needed_bytes|copy::copy)$")
SENDS = re.compile(r"::(try_)?send$")
CURSOR = re.compile(r"Cursor::<.*>::(into_inner|get_ref|position)$")
RECV = re.compile(r"::(try_)?recv(_timeout)?$")
CODES = {1: r"^lz4::", 2: r"^xz2::", 3: r"^zstd::"}


class Sub:
    """one iteration of a loop, as a trace"""

    def __init__(self, t, it):
        self.E, self.st, self.effs, self.it, self.outer = t.E, it.st, it.effs, it, t
        self.facts, self.bnd = it.facts, it.bnd
        self.inits = {}
        for e in flat_loops(it.effs):
            self.inits.update(e.x["init"])

    def base(self, v):
        """the object v is a state of, inside the iteration"""
        n = 0
        while v is not None and n < 300:
            n += 1
            if v.op in ("hv", "upd", "push", "fld"):
                v = v.a[0]
            elif v.op == "lv" and v in self.inits and self.inits[v] is not v:
                v = self.inits[v]
            elif v.op == "agg" and agg_get(v, "buf") is not None:
                v = agg_get(v, "buf")
            else:
                return v
        return v

    def mentions(self, v, root, memo=None):
        """v may give access to the object (numbers observed on it do not)"""
        memo = {} if memo is None else memo
        if v is root:
            return True
        if v in memo:
            return memo[v]
        memo[v] = False
        if v.op == "call" and NUM.search(v.a[0]):
            return False
        if v.op == "lv":
            r = v in self.inits and self.mentions(self.inits[v], root, memo)
        else:
            r = any(self.mentions(x, root, memo) for x in kids(v))
        memo[v] = r
        return r


class Positions:
    """events on one stream during an iteration: [(what, position, effect)], tells resolved to positions"""

    def __init__(self, s, root, ignore=()):
        self.s, self.root, self.n, self.alias, self.log = s, root, 0, {}, []
        self.pos = sym("P0")
        for e in s.effs:
            if e.kind == "loop":
                if any(x.kind == "call" and any(s.mentions(a, root) for a in x.args) for x in flat([e])):
                    self.put("loop", e)
            elif e.kind == "call" and e.args and any(s.mentions(a, root) for a in e.args):
                if TELL.search(e.name) and s.base(e.args[0]) is root:
                    for x in (e.res, mk("pl", e.res, "Ok", "0")):
                        self.alias[x] = self.pos
                elif any(r.search(e.name) for r in ignore):
                    pass
                else:
                    self.put("call", e)

    def put(self, what, e):
        self.log.append((what, self.pos, e))
        self.n += 1
        self.pos = sym("P%d" % self.n)

    def res(self, v):
        ps = set(self.alias.values())
        return rebuild(v, lambda x: self.alias.get(x, x) if x.op != "pl" or x.a[0] not in ps else x.a[0])


def recv_loops(cx, key, stops=STOPS):
    """[(trace, loop)]: the loop of a thread over what it receives"""
    r = []
    for t in oks(cx.traces(key, stop=stops)):
        for e in t.effs:
            if e.kind == "loop" and any(x.kind == "call" and RECV.search(x.name) for it in e.x["iters"] for x in it.effs):
                r.append((t, e))
    if not r:
        raise Anchor("no loop over what is received")
    return r


def recvs(s):
    return [e for e in flat(s.effs) if e.kind == "call" and RECV.search(e.name)]


def cluster_in(s, r, cx):
    """the cluster a received message holds (term), and its variant name"""
    msg = s.E.payload(r.res, "Ok", "0")
    if contains_type(cx, r):
        return msg, None
    v = discrs(cx, "WriteTask")
    for n, d in v.items():
        if s.E.decide(s.st, eq(mk("discr", msg), c(d))) is True:
            return s.E.payload(msg, n, "0"), n
    return None, None


def contains_type(cx, r):
    """the channel carries clusters themselves"""
    return "WriteTask" not in (r.x["dty"]["s"] if r.x and r.x.get("dty") else "WriteTask")


def call_of(v, name):
    """arguments of the call v is the result of"""
    return v.a[1] if v.op == "call" and re.search(name, v.a[0]) else None


def width_of(v):
    """M when v is the number of bytes needed for M"""
    v = unconv(v)
    if v.op == "discr":
        v = v.a[0]
    a = call_of(v, "needed_bytes$")
    return a[0] if a else None


def whole_seq(v):
    """the sequence v is, when it is all of it (split_off(0), drained, whole slice)"""
    while True:
        if v.op == "slice" and v.a[1] is c(0) and v.a[2] is mk_len(v.a[0]):
            v = v.a[0]
            continue
        a = call_of(v, "::split_off$")
        if a and a[1] is c(0):
            v = a[0]
            continue
        return v


# ---- addresses ----------------------------------------------------------------------------
def last_or_zero(s, seq):
    n = mk_len(seq)
    z = s.E.decide(s.st, eq(n, c(0)))
    if n is c(0) or z is True:
        return c(0)
    if z is False or s.E.decide(s.st, le(c(1), n)) is True:
        return s.E.index(seq, sub(n, c(1)))
    return None


def r_address(cx, R="address"):
    cx.rule(R, "every insertion puts its content at the end of the open cluster of its kind, records (that cluster's id, number of blobs before) at the end of the content "
               "table and returns that table position; a cluster is opened under the next unused id, a replaced one is handed to the writer, and a cluster holds at most 4096 blobs, so that an index fits its 12 bits")
    k = cx.m("ContentPackCreator", "add_content", "")
    slots = cx.fields("ContentPackCreator", r"Option<.*ClusterCreator")
    ctr = cx.field("ContentPackCreator", r"Cell<")
    infos = cx.field("ContentPackCreator", r"Vec<.*ContentInfo")
    pid = cx.field("ContentPackCreator", r"PackId$")
    if len(slots) != 2:
        raise Anchor("open clusters: %s" % slots)
    ts = oks(cx.traces(k, stop=["ClusterWriterProxy.*write_cluster$", "detect_compression"], paths=True))
    opened = 0
    for t in ts:
        m = final(t, A[0])
        old_infos, new_infos = F(A[0], infos), F(m, infos)
        wr = calls(t, "write_cluster")
        ok_ = new_infos.op == "push" and new_infos.a[0] is old_infos and isagg(new_infos.a[1], "ContentInfo")
        if not ok_:
            cx.ob(R, k, "one entry at the end of the content table", False, "content table becomes %s" % show(new_infos)[:200])
            continue
        ci = new_infos.a[1]
        v = okval(t)
        cx.ob(R, k, "address returned", isagg(v, "ContentAddress") and fld(v, "pack_id") is F(A[0], pid) and unconv(fld(v, "content_id"), 32) is mk_len(old_infos), "returns %s" % show(v))
        touched = [f for f in slots if F(m, f) is not F(A[0], f)]
        if len(touched) != 1:
            cx.ob(R, k, "one cluster takes the content", False, "open clusters changed: %s" % touched)
            continue
        f = touched[0]
        was, now = F(A[0], f), F(m, f)
        cl = t.E.payload(now, "Some", "0")
        data, offs = fld(cl, "data"), fld(cl, "offsets")
        if data.op != "push" or offs.op != "push":
            cx.ob(R, k, "content stored", False, "data %s offsets %s" % (show(data)[:120], show(offs)[:120]))
            continue
        cx.ob(R, k, "the content given", base_obj(data.a[1]) is A[1], "stores %s" % show(data.a[1])[:200])
        before = offs.a[0]
        size = [e.res for e in flat(t.effs) if e.kind == "call" and e.name.endswith("InputReader::size") and base_obj(e.args[0]) is A[1]]
        lz = last_or_zero(t, before)
        cx.ob(R, k, "end offset = previous end + size", lz is not None and any(offs.a[1] is add(lz, z) for z in size), "end offset %s" % show(offs.a[1])[:300])
        cx.ob(R, k, "blob index", unconv(fld(ci, "blob_index"), 16) is mk_len(before) or t.E.decide(t.st, eq(unconv(fld(ci, "blob_index"), 16), mk_len(before))) is True, "records %s, the cluster holds %s" % (show(fld(ci, "blob_index")), show(mk_len(before))))
        cx.ob(R, k, "cluster id", fld(ci, "cluster_index") is fld(cl, "index"), "records %s, stored in %s" % (show(fld(ci, "cluster_index")), show(fld(cl, "index"))))
        cx.ob(R, k, "at most 4096 blobs", t.E.decide(t.st, lt(mk_len(before), c(4096))) is True, "the blob index may not fit in 12 bits")
        fresh = not contains(cl, lambda x: x is t.E.payload(was, "Some", "0") or x is was)
        if fresh:
            opened += 1
            cx.ob(R, k, "new cluster: next id", fld(cl, "index") is F(A[0], ctr) and F(m, ctr) is add(F(A[0], ctr), c(1)),
                  "id %s, counter becomes %s" % (show(fld(cl, "index")), show(F(m, ctr))))
            cx.ob(R, k, "new cluster: empty before", mk_len(before) is c(0) and mk_len(data.a[0]) is c(0), "starts with %s" % show(before)[:100])
            had = t.E.decide(t.st, eq(mk("discr", was), c(0)))
            if had is True:
                cx.ob(R, k, "nothing to write", not wr, "writes %s" % [show(e.args[1])[:80] for e in wr])
            else:
                cx.ob(R, k, "replaced cluster is written", len(wr) == 1 and wr[0].args[1] is t.E.payload(was, "Some", "0"), "writes %s" % [show(e.args[1])[:80] for e in wr])
        else:
            cx.ob(R, k, "same cluster: its id and the counter stay", fld(cl, "index") is fld(t.E.payload(was, "Some", "0"), "index") and F(m, ctr) is F(A[0], ctr)
                  and before is fld(t.E.payload(was, "Some", "0"), "offsets") and data.a[0] is fld(t.E.payload(was, "Some", "0"), "data"), show(cl)[:300])
            cx.ob(R, k, "same cluster: not written yet", not wr, "writes %s" % [show(e.args[1])[:80] for e in wr])
    # an open cluster never holds more blobs than insertions leave in it: with so many and less, adding does not panic
    most = {}
    for t in ts:
        for f in slots:
            n = mk_len(fld(t.E.payload(F(A[0], f), "Some", "0"), "offsets"))
            if F(final(t, A[0]), f) is not F(A[0], f) and n in t.bnd and t.bnd[n][1] is not None and not calls(t, "write_cluster"):
                most[f] = max(most.get(f, 1), t.bnd[n][1] + 1)
    for t in cx.traces(k, stop=["ClusterWriterProxy.*write_cluster$", "detect_compression"], paths=True):
        if t.kind != "panic" or not t.bnd:
            continue
        last = list(t.bnd)[-1]
        own = {x: f for f in slots for x in (mk("discr", F(A[0], f)), mk_len(fld(t.E.payload(F(A[0], f), "Some", "0"), "offsets")))}
        if last not in own or len(most) != 2:
            continue
        poss = all((t.bnd[x][0] or 0) <= most[f] for x, f in own.items() if x.op == "len" and x in t.bnd)
        cx.ob(R, k, "adding a content does not panic", not poss, "it panics when %s is %s" % (show(last)[:100], t.bnd[last][:2]))
    cx.ob(R, k, "both situations", opened >= 4 and len(ts) > opened, "%d paths, %d open a cluster" % (len(ts), opened))


def r_closed(cx, R="last-clusters"):
    cx.rule(R, "finalising hands every open cluster that holds a content to the writer before the writer is finished")
    k = cx.m("ContentPackCreator", "finalize", "")
    slots = cx.fields("ContentPackCreator", r"Option<.*ClusterCreator")
    ts = oks(cx.traces(k, stop=["ClusterWriterProxy", "ser_callable", "ser_write", "CheckInfo"], paths=True))
    for t in ts:
        es = [e for e in flat(t.effs) if e.kind == "call"]
        fin = [i for i, e in enumerate(es) if e.name.endswith("::finalize") and contains(e.args[0], lambda x: x.op == "fld" and x.a[1] == "cluster_writer" or x.op == "hv")]
        if len(fin) != 1:
            raise Anchor("end of the cluster writer")
        for f in slots:
            was = F(A[0], f)
            cl = t.E.payload(was, "Some", "0")
            w = [i for i, e in enumerate(es) if e.name.endswith("::write_cluster") and e.args[1] is cl]
            none = t.E.decide(t.st, eq(mk("discr", was), c(0)))
            empty = any(t.E.decide(t.st, eq(mk_len(fld(cl, x)), c(0))) for x in ("data", "offsets"))
            if none is True or empty:
                cx.ob(R, k, "%s: nothing to write" % f, not w, "an empty cluster is written")
            else:
                cx.ob(R, k, "%s: written" % f, len(w) == 1 and w[0] < fin[0], "written %d times; the cluster may hold contents" % len(w))


# ---- what is written for one cluster ------------------------------------------------------
def stream_root(s):
    te = [x for x in flat(s.effs) if x.kind == "call" and TELL.search(x.name)]
    roots = {s.base(x.args[0]) for x in te}
    return roots.pop() if len(roots) == 1 else None


COPY = re.compile(r"(io::copy::copy|OutStream::copy|generic_copy|kernel_copy)$")


def source_of(s, v, seq):
    """the index variable when v is (the reader of) an element of seq, read from where it stands to its end"""
    for x in walk(v):
        if x.op == "call" and re.search(r"::(take|chain|by_ref|skip|seek)$", x.a[0]) and not x.a[0].endswith("by_ref"):
            return None
    for x in walk(v):
        if x.op == "idx" and whole_seq(x.a[0]) is seq:
            return x.a[1]
    return None


def check_data(cx, R, k, inst, s, C, pos, tail_at):
    """every content of the cluster goes to the stream once, whole, in order, before the tail"""
    seq = fld(C, "data")
    evs = pos.log[:tail_at]
    loops = [e for w, p, e in evs if w == "loop"]
    done = 0
    for e in loops:
        for it in e.x["iters"]:
            cs = [x for x in flat(it.effs) if x.kind == "call" and COPY.search(x.name) and any(s.mentions(a, pos.root) for a in x.args)]
            ws = [x for x in flat(it.effs) if x.kind == "call" and not COPY.search(x.name) and any(s.mentions(a, pos.root) for a in x.args) and not TELL.search(x.name)]
            if ws:
                raise Anchor("%s: data written by %s" % (inst, ws[0].name))
            lv = source_of(s, cs[0].args[0], seq) if len(cs) == 1 else None
            ok_ = lv is not None and e.x["init"].get(lv) is c(0) and it.next.get(lv) is add(lv, c(1))
            cx.ob(R, k, "%s: one content after the other" % inst, ok_, "an iteration copies %s" % [show(x.args[0])[:120] for x in cs])
            done += 1
            if ok_:
                vis = s.E.decide(s.st, le(mk_len(seq), lv))
                if vis is None:
                    sq = [x.a[0] for x in walk(cs[0].args[0]) if x.op == "idx" and x.a[1] is lv][0]
                    vis = s.E.decide(s.st, le(mk_len(sq), lv))
                cx.ob(R, k, "%s: until the last content" % inst, vis is True, "the loop may stop before the last content")
    if not done:
        raise Anchor("%s: the data is not written by a loop" % inst)


def check_tail(cx, R, k, inst, s, C, code, ignore=(SENDS, CURSOR)):
    """positions and bytes of one cluster; returns (Positions, index of the tail event, its effect) or None"""
    root = stream_root(s)
    if root is None:
        raise Anchor("%s: no position is taken on the stream" % inst)
    pos = Positions(s, root, ignore)
    w = [i for i, (x, p, e) in enumerate(pos.log) if x == "call" and e.name.endswith("write_serializer")]
    if len(w) != 1:
        raise Anchor("%s: %d tails" % (inst, len(w)))
    i = w[0]
    ptail, e = pos.log[i][1], pos.log[i][2]
    cx.ob(R, k, "%s: the tail is last" % inst, i == len(pos.log) - 1, "after the tail: %s" % [x[2].name for x in pos.log[i + 1:]])
    ser = [a for a in e.args if s.base(a) is not root][-1]
    sroot = s.base(ser)
    ck = fld(ser if ser.op == "agg" else s_final(s, ser), "check")
    n = mk_len(fld(C, "offsets"))
    env = [s.inits]
    tb = table(items(s.effs, sroot, env))
    raw = sub(ptail, sym("P0"))
    total = last_or_zero(s, fld(C, "offsets"))
    if total is None:
        raise Anchor("%s: size of the cluster" % inst)
    if len(tb) < 5:
        raise Anchor("%s: tail of %d fields" % (inst, len(tb)))
    M = width_of(tb[1][3]) if isinstance(tb[1][3], T) else None
    if M is None:
        raise Anchor("%s: width of the numbers in the tail" % inst)
    W = tb[1][3]
    M2 = pos.res(M)

    def same_w(w_):
        return unconv(w_) is unconv(W)

    def val(x):
        return pos.res(unconv(x))
    cx.ob(R, k, "%s: compression code" % inst, tb[0][1] is c(1) and (code is None or tb[0][3] is c(code)), "writes %s, expected %s" % (show(tb[0][3]), code))
    cx.ob(R, k, "%s: blob count" % inst, tb[2][1] is c(2) and tb[2][2] == "le" and unconv(tb[2][3], 16) is n, "writes %s" % show(tb[2][3]))
    cx.ob(R, k, "%s: stored size" % inst, same_w(tb[3][1]) and tb[3][2] == "le" and val(tb[3][3]) is raw, "writes %s, the data takes %s" % (show(val(tb[3][3])), show(raw)))
    cx.ob(R, k, "%s: plain size" % inst, same_w(tb[4][1]) and tb[4][2] == "le" and val(tb[4][3]) is total, "writes %s, the contents take %s" % (show(tb[4][3])[:200], show(total)))
    for what, x in (("stored size", raw), ("plain size", total)):
        y = unconv(tb[3][3] if what == "stored size" else tb[4][3])
        f = M2 is x or (M2.op == "max" and any(y is x for y in M2.a)) or (x is c(0)) or (val(y) is x and s.E.decide(s.st, le(y, M)) is True)
        cx.ob(R, k, "%s: numbers wide enough for the %s" % (inst, what), f, "the width is computed from %s" % show(M2)[:200])
    single = s.E.decide(s.st, le(n, c(1))) is True
    if len(tb) == 6 and tb[5][1] == "loop":
        le_, its = tb[5][2], tb[5][3]
        for it, sub_ in its:
            if not sub_:
                continue
            lv = seq_lv(le_, it)
            okv = lv is not None and len(sub_) == 1 and same_w(sub_[0][0]) and plain(sub_[0][1])[0] == "le" and unconv(plain(sub_[0][1])[1]) is mk("idx", fld(C, "offsets"), lv)
            cx.ob(R, k, "%s: one end offset per blob, in order" % inst, okv, "per blob: %s" % [show(x[1])[:150] for x in sub_ if isinstance(x[1], T)])
            if okv:
                done = s.E.decide(s.st, le(sub(n, c(1)), lv))
                lastout = Engine.decide(s.E, it.st, lt(lv, sub(n, c(1))))
                cx.ob(R, k, "%s: all but the last end offset" % inst, done is True and lastout is True, "the loop does not stop before the last blob")
    elif len(tb) == 5:
        cx.ob(R, k, "%s: end offsets" % inst, single or n is c(0), "no end offset is written")
    else:
        cx.ob(R, k, "%s: nothing else in the tail" % inst, False, show_table(tb[5:])[:300])
    return pos, i, e


def seq_lv(le_, it):
    for lv, i0 in le_.x["init"].items():
        if i0 is c(0) and it.next.get(lv) is add(lv, c(1)):
            return lv
    return None


def s_final(s, v):
    """value of a carried serializer where it matters: its check kind"""
    n = 0
    while v.op in ("hv", "upd", "lv", "push") and n < 50:
        n += 1
        if v.op == "lv":
            if v not in s.inits:
                return v
            v = s.inits[v]
        else:
            v = v.a[0]
    return v


def written_at(cx, R, k, inst, s, X, pos, tail):
    """X, the address kept, is where the tail was written and how long it is"""
    i, e = tail
    off, size = pos.res(unconv(fld(X, "offset"))), unconv(fld(X, "size"))
    cx.ob(R, k, "%s: address" % inst, off is pos.log[i][1], "keeps %s, the tail is at %s" % (show(off), show(pos.log[i][1])))
    cx.ob(R, k, "%s: size" % inst, size is s.E.payload(e.res, "Ok", "0"), "keeps %s" % show(size)[:200])


def r_raw(cx, R="cluster"):
    """iterations of the writer thread for clusters it writes itself"""
    cx.rule(R, "a cluster is its contents one after the other, whole, then a tail: compression code, width, blob count, stored size, plain size and all end offsets but the last, "
               "in numbers wide enough; the address kept for it is the place and size of that tail")
    k = cx.m("ClusterWriter", "run", "")
    n = 0
    for t, e in recv_loops(cx, k):
        for it in e.x["iters"]:
            s = Sub(t, it)
            C, var = cluster_in(s, recvs(s)[0], cx)
            if C is None or var != "Cluster":
                continue
            if s.E.decide(s.st, eq(mk_len(fld(C, "offsets")), c(0))) is True:
                continue
            n += 1
            pos, i, te = check_tail(cx, R, k, "raw", s, C, 0)
            check_data(cx, R, k, "raw", s, C, pos, i)
    cx.ob(R, k, "raw clusters", n >= 1, "no path writes a raw cluster")


def r_compressed(cx, R="cluster"):
    cx.rule(R, cx.rules.get(R) or "a compressed cluster is its contents, whole and in order, through the encoder the compression code announces, then the same tail")
    k = cx.m("ClusterCompressor", "run", "")
    seen = set()
    for t, e in recv_loops(cx, k):
        for it in e.x["iters"]:
            s = Sub(t, it)
            C, var = cluster_in(s, recvs(s)[0], cx)
            if C is None or s.E.decide(s.st, eq(mk_len(fld(C, "offsets")), c(0))) is True:
                continue
            enc = [code for x in flat(s.effs) if x.kind == "call" for code, rx in CODES.items() if re.search(rx, x.name)]
            if len(set(enc)) != 1:
                raise Anchor("encoders of a compressed cluster: %s" % sorted(set(enc)))
            seen.add(enc[0])
            pos, i, te = check_tail(cx, R, k, "compressed", s, C, enc[0])
            check_data(cx, R, k, "compressed", s, C, pos, i)
            fin = [x for x in flat(s.effs) if x.kind == "call" and re.search(r"::finish$", x.name)]
            cx.ob(R, k, "compressed: the encoder is finished", len(fin) == 1, "%d calls" % len(fin))
            # a decoder refuses a window above 2^27 unless it is told otherwise, and needs 32 KiB more than the dictionary
            for x in flat(s.effs):
                if x.kind == "call" and x.name.endswith("::window_log") and cval(x.args[-1]) is not None:
                    cx.ob(R, k, "compressed: a window the decoder accepts", 10 <= cval(x.args[-1]) <= 27, "a window of 2^%s bytes is asked for" % show(x.args[-1]))
                if x.kind == "call" and x.name.endswith("::dict_size") and cval(x.args[-1]) is not None:
                    cx.ob(R, k, "compressed: a dictionary the decoder accepts", 4096 <= cval(x.args[-1]) <= (64 << 20), "a dictionary of %s bytes is asked for" % show(x.args[-1]))
    cx.ob(R, k, "all encoders", seen == set(CODES), "%s" % sorted(seen))
