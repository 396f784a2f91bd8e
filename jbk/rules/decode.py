"""the buffer a cluster is decompressed in: one thread writes it, any number read what is published of it (C01, C07)"""
import itertools
from .core import *
from .entries import evs

FRP = "core::slice::raw::from_raw_parts"
GROW = re.compile(r"Read::read_to_end$")


class Shape:
    """the types of the shared buffer, found by what they are made of"""

    def __init__(self, cx):
        self.cx = cx
        self.dec = "SeekableDecoder"
        ks = [k for k in cx.keys(r"SeekableDecoder::new::<T>") if not cx.fn(k).get("closure")]
        if len(ks) != 1:
            raise Anchor("SeekableDecoder::new")
        self.new = ks[0]
        ts = oks(cx.traces(self.new))
        self.spawns = [(t, e) for t in ts for e in calls(t, re.compile(r"::spawn(_fifo)?$"))]
        if not self.spawns:
            raise Anchor("the decoding task")
        self.ts = ts


def locked_of(x, ops=("locked", "waited"), lvs=()):
    """(place of the mutex, path to the published size) when x is a value read under a lock"""
    path = []
    while x.op == "fld":
        path.append(x.a[1])
        x = x.a[0]
    return (x, tuple(reversed(path))) if x.op in ops or x in lvs else (None, None)


def waited_lvs(t):
    """variables of loops which hold what is under the mutex: at first as it was locked, then as each wait gives it back"""
    r = set()
    for le_ in flat_loops(t.effs):
        for lv, v in le_.x["init"].items():
            if v.op in ("locked", "waited") and all(it.next.get(lv) is None or it.next[lv] is lv or it.next[lv].op in ("locked", "waited") for it in le_.x["iters"]):
                r.add(lv)
    return r


def mutex_of(x):
    """place holding the mutex and the condition"""
    p = x.a[0]
    return p.a[0] if p.op == "fld" else p


def writer(cx):
    """traces of the closure which decodes, and its captures"""
    sh = Shape(cx)
    cl = [k for k in cx.keys(r"SeekableDecoder::new::<T>::\{closure#\d+\}") if not re.search(r"\}::\{closure", k)]
    cl = [k for k in cl if any(GROW.search(e.name) for t in cx.traces(k) for e in flat(t.effs) if e.kind == "call")]
    if len(set(cx.fn(k)["path"] for k in cl)) != 1:
        raise Anchor("the closure which decodes")
    return sh, cl[0]


def change(v):
    """[(path, value)] written through a guard"""
    r = []
    while v.op == "upd":
        if isinstance(v.a[1], str):
            r.append(((v.a[1],), v.a[2]))
        v = v.a[0]
    if v.op not in ("locked", "waited"):
        r.append(((), v))
    return r


def published_path(cx):
    """where in the mutex the number of decoded bytes is: the only integer of it"""
    sh, k = writer(cx)
    ps = set()
    for t in cx.traces(k):
        for le_ in flat_loops(t.effs):
            for it in le_.x["iters"]:
                for e in it.effs:
                    if e.kind == "drop" and "Guard<" in e.name:
                        for p, v in change(e.args[0]):
                            if contains(v, lambda x: x.op == "call" and GROW.search(x.a[0])) or v.op in ("lv", "lin"):
                                ps.add(p)
    if len(ps) != 1:
        raise Anchor("where the decoded size is published")
    return ps.pop()


def r_write(cx):
    R = "decoded bytes published"
    cx.rule(R, "the decoding task appends to the shared buffer at most what remains of it, and publishes under the mutex, once they are written, exactly the number of bytes written so far; every "
               "waiter is told after each change; the task ends when all is decoded, or says that it failed")
    sh, k = writer(cx)
    n = 0
    path = published_path(cx)
    failed_ends = 0
    for t in cx.traces(k):
        if t.kind == "panic":
            # (the pool ends the process when a task panics)
            cx.ob(R, k, "never panics", False, "the decoding task panics (%s)" % show_facts(t))
            continue
        ls = [e for e in flat_loops(t.effs) if any(x.kind == "call" and GROW.search(x.name) for it in e.x["iters"] for x in it.effs)]
        if len(ls) != 1:
            raise Anchor("the decoding loop")
        le_ = ls[0]
        cnt = None
        for it in le_.x["iters"]:
            rd = [(i, e) for i, e in enumerate(it.effs) if e.kind == "call" and GROW.search(e.name)]
            dr = [(i, e) for i, e in enumerate(it.effs) if e.kind == "drop" and "Guard<" in e.name]
            lk = [(i, e) for i, e in enumerate(it.effs) if e.kind == "lock"]
            nt = [(i, e) for i, e in enumerate(it.effs) if e.kind == "call" and "Condvar::notify" in e.name]
            if len(rd) != 1:
                raise Anchor("%d reads in a turn of the decoding loop" % len(rd))
            ri, re_ = rd[0]
            got = mk("pl", re_.res, "Ok", "0")
            if re_.args[0].op != "call" or not re_.args[0].a[0].endswith("Read::take"):
                cx.ob(R, k, "never more than the buffer holds", False, "%s is read to its end in the buffer" % show(re_.args[0]))
                continue
            n += 1
            lim = re_.args[0].a[1][1]
            sink = re_.args[1]
            # the counter: what the limit and the published value are counted from
            pubs = [v for i, e in dr for p, v in change(e.args[0]) if p == path]
            lvs = {x for x in terms_of([lim] + pubs) if x.op == "lv" and le_.x["init"].get(x) is c(0)}
            lens = {x for x in terms_of([lim] + pubs) if x.op == "len"}
            if not pubs:
                cx.ob(R, k, "published", False, "a turn of the decoding loop publishes nothing")
                continue
            if len(lvs) == 1:
                cnt = lvs.pop()
                nx = it.next.get(cnt)
                cx.ob(R, k, "count of the bytes written", nx is add(cnt, got), "the count becomes %s" % show(nx))
            elif lens and not lvs:
                cnt = None
                raise Anchor("bytes counted by the length of the buffer")
            else:
                raise Anchor("count of decoded bytes")
            want = add(cnt, got)
            for v in pubs:
                cx.ob(R, k, "publishes the bytes written", v is want, "publishes %s" % show(v))
            # (a loop over a counter or an iterator ends whatever is read)
            if nx is None or any(y is got for y in walk(nx)):
                stuck = not any(v is not x and x is not cnt and x.op == "lv" and not contains(v, lambda y: y is got) and strictly(v, x) for x, v in it.next.items())
                cx.ob(R, k, "a stream which ends early is not read for ever", not stuck or implied(dummy(t, it), le(c(1), got)) is True or not_zero(it, got), "the loop goes on although nothing was read")
            # room: total - count
            tot = total_of(cx, t, sink)
            ok, why = within(lim, sub(tot, cnt), [tot, cnt], it.bnd)
            cx.ob(R, k, "never more than the buffer holds", ok, "reads %s%s" % (show(lim), why))
            ok, why = positive(lim, [tot, cnt], it.bnd)
            cx.ob(R, k, "each turn asks for something", ok, "reads %s%s" % (show(lim), why))
            # the guard
            for i, e in dr:
                if any(p == path for p, v in change(e.args[0])):
                    cx.ob(R, k, "written before published", ri < i, "the length is published before the bytes are there")
                    m = base_lock(e.args[0])
                    acq = [j for j, l in lk if l.args[0] is m and j < i] if m is not None else []
                    cx.ob(R, k, "every waiter is told", any(e2.name.endswith("notify_all") and (not acq or j > acq[-1]) and same_pair(e2.args[0], m) for j, e2 in nt),
                          "; ".join("%s" % e2 for j, e2 in nt)[:200] or "nobody is notified")
        if cnt is None:
            continue
        # the end
        tot = total_of(cx, t, sink)
        after = t.effs[[i for i, e in enumerate(t.effs) if e is le_][0] + 1:] if le_ in t.effs else []
        last = [e for e in after if e.kind == "drop" and "Guard<" in e.name]
        fails = [(p, v) for e in last for p, v in change(e.args[0]) if p != path]
        done = ge0(t, sub(cnt, tot))
        if done:
            cx.ob(R, k, "ends when all is decoded", True, "")
            continue
        told = [e for e in after if e.kind == "call" and e.name.endswith("Condvar::notify_all")]
        failed_ends += 1
        res = [e.res for e in after if e.kind == "call" and GROW.search(e.name)]
        cx.ob(R, k, "stops early only when there is nothing more", any(implied(t, eq(mk("discr", x), c(1))) is True or implied(t, le(mk("pl", x, "Ok", "0"), c(0))) is True for x in res), show_facts(t))
        cx.ob(R, k, "a task which stops early says so", len(fails) >= 1 and all(v is c(1) for p, v in fails) and bool(told), "%s" % show_facts(t))
        for e in last:
            for p, v in change(e.args[0]):
                if p == path:
                    ok, why = within(v, cnt, [tot, cnt], t.bnd)
                    cx.ob(R, k, "publishes the bytes written", ok, "publishes %s" % show(v))
    cx.ob(R, k, "turns", n >= 1, "%d" % n)


def terms_of(xs):
    for x in xs:
        yield from walk(x)


def show_facts(t):
    return "; ".join("%s is %s" % (show(a)[:60], b) for a, b in list(t.facts.items())[-2:]) or "on every path"


def base_lock(v):
    while v.op == "upd":
        v = v.a[0]
    return v.a[0] if v.op in ("locked", "waited") else None


def same_pair(cv, m):
    return m is None or cv.op != "fld" or m.op != "fld" or cv.a[0] is m.a[0]


def ge0(t, x):
    r = implied(t, le(c(0), x))
    return r is True


class dummy:
    """a turn of a loop, as a trace"""
    def __init__(self, t, it):
        self.E, self.st, self.facts, self.bnd = t.E, it.st, it.facts, it.bnd


def strictly(v, x):
    d = sub(v, x)
    return d.op == "c" and d.a[0] != 0


def not_zero(it, got):
    b = it.bnd.get(got)
    return b is not None and (b[0] is not None and b[0] > 0 or 0 in (b[2] or ()))


def total_of(cx, t, sink):
    """the total size known to the owner of the buffer `sink`"""
    x = sink
    while x.op in ("hv", "upd"):
        x = x.a[0]
    if x.op == "lv":
        for le_ in flat_loops(t.effs):
            if x in le_.x["init"]:
                x = le_.x["init"][x]
    if x.op != "fld":
        raise Anchor("owner of the shared buffer")
    return mk("fld", x.a[0], cx.field("SyncVecWr", r"^usize$"))


SAMPLE = [0, 1, 2, 3, 5, 4095, 4096, 4097, 8192, 10000]


def envs(vars_, extra=(), vals=SAMPLE):
    for xs in itertools.product(vals, repeat=len(vars_)):
        yield dict(zip(vars_, xs))


def holds(bnds, env):
    for x, (lo, hi, ex) in bnds.items():
        v = evs(x, env)
        if v is None:
            continue
        if lo is not None and v < lo or hi is not None and hi < (1 << 62) and v > hi or v in (ex or ()):
            return False
    return True


def within(x, bound, vars_, bnds):
    """x <= bound for all samples"""
    for env in with_consts(x, vars_):
        if evs(sub(vars_[0], vars_[1]), env) < 0 or not holds(bnds, env):
            continue
        a, b = evs(x, env), evs(bound, env)
        if a is None or b is None:
            raise Anchor("value of %s" % show(x))
        if a > b:
            return False, " with %d of %d bytes decoded" % (env[vars_[1]], env[vars_[0]])
    return True, ""


def positive(x, vars_, bnds):
    for env in with_consts(x, vars_):
        if evs(sub(vars_[0], vars_[1]), env) <= 0 or not holds(bnds, env):
            continue
        a = evs(x, env)
        if a is None:
            raise Anchor("value of %s" % show(x))
        if a <= 0:
            return False, " with %d of %d bytes decoded" % (env[vars_[1]], env[vars_[0]])
    return True, ""


def with_consts(x, vars_):
    from .entries import free_leaves
    rest = [y for y in free_leaves(x) if y not in vars_]
    if len(rest) > 2:
        raise Anchor("value of %s" % show(x))
    for env in envs(vars_):
        if not rest:
            yield env
        else:
            for e2 in envs(rest, vals=[1, 5, 4096]):
                yield {**env, **e2}


def r_shared(cx):
    R = "shared buffer"
    cx.rule(R, "the writing and the reading side are made over one allocation, as large as the decoded size, kept by both and never freed or moved by the writer; they share one progress, which starts at "
               "zero; the decoder handed in is decoded to the very buffer which is read")
    sh, kw = writer(cx)
    ks = [k for k in cx.keys(r".") if cx.fn(k)["local"] and cx.fn(k).get("root") and any(isagg_of(cx, k, n) for n in ("SyncVecWr", "SyncVecRd"))]
    cx.ob(R, "crate", "made in one place", len(ks) == 1, "made in %s" % ", ".join(ks))
    if len(ks) != 1:
        return
    n = 0
    for t in oks(cx.traces(sh.new)):
        rd = F(t.val, "buffer") if t.val.op == "agg" and t.val.a[0].endswith("SeekableDecoder") else t.val
        if not isagg(rd) or not rd.a[0].endswith("SyncVecRd"):
            raise Anchor("SeekableDecoder::new gives %s" % show(t.val))
        sp = calls(t, re.compile(r"::spawn(_fifo)?$"))
        cx.ob(R, sh.new, "one decoding task", len(sp) == 1, "%d" % len(sp))
        if len(sp) != 1:
            continue
        ups = [v for v in walk_args(sp[0]) if isagg(v) and v.a[0].endswith("SyncVecWr")]
        if len(ups) != 1:
            raise Anchor("what the decoding task is given")
        wr = ups[0]
        n += 1
        W, Rr = "SyncVecWr", "SyncVecRd"
        arcw, arcr = F(wr, cx.field(W, r"^.*Arc<.*Vec<u8>>$|Arc<alloc::vec::Vec<u8")), F(rd, cx.field(Rr, r"Arc<alloc::vec::Vec<u8"))
        data = F(wr, cx.field(W, r"ManuallyDrop<|^alloc::vec::Vec<u8"))
        ptr = F(rd, cx.field(Rr, r"^\*"))
        tot = [F(wr, cx.field(W, r"^usize$")), F(rd, cx.field(Rr, r"^usize$"))]
        prog = [F(wr, cx.field(W, r"Condvar")), F(rd, cx.field(Rr, r"Condvar"))]
        cx.ob(R, sh.new, "both keep the allocation", arcw is arcr and arcw.op == "vec" and ptr is arcw, "kept %s and %s, read at %s" % (show(arcw), show(arcr), show(ptr)))
        inner = [x for x in walk(data) if x.op in ("call", "pure") and x.a[0].endswith("from_raw_parts")]
        if len(inner) != 1:
            raise Anchor("the writer's view of the buffer")
        p, ln, cap = inner[0].a[1][:3]
        cx.ob(R, sh.new, "the writer does not free it", any(x.op == "call" and "ManuallyDrop" in x.a[0] for x in walk(data)), show(data))
        cx.ob(R, sh.new, "written from its start", p is arcw and ln is c(0), "view of %s from %s" % (show(p), show(ln)))
        size = t.st.cnt.get(("cap", arcw))
        if size is None:
            raise Anchor("size of the shared buffer")
        cx.ob(R, sh.new, "as large as what is decoded", teq(t, size, cap) and teq(t, size, tot[0]) and teq(t, size, tot[1]),
              "allocated %s, view of %s, decoding %s, read %s" % (show(size), show(cap), show(tot[0]), show(tot[1])))
        cx.ob(R, sh.new, "size asked", teq(t, tot[0], A[1]), "decodes %s" % show(tot[0]))
        cx.ob(R, sh.new, "one progress", prog[0] is prog[1], "%s and %s" % (show(prog[0]), show(prog[1])))
        mx = [x for x in walk(prog[0]) if x.op == "mutex"]
        v0 = mx[0].a[0] if len(mx) == 1 else None
        zero = v0 is not None and (v0 is c(0) or v0.op == "agg" and all(x is c(0) for x in fields_of(v0)))
        cx.ob(R, sh.new, "starts at zero", zero, show(prog[0]))
        cx.ob(R, sh.new, "decodes the given data", any(x is A[0] for x in walk_args(sp[0])), "%s" % sp[0])
    cx.ob(R, sh.new, "paths", n >= 1, "%d" % n)


def fields_of(v):
    r = []
    for x in v.a[2:]:
        r += [y for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T)]
    return r


def isagg_of(cx, k, name):
    f = cx.fn(k)
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and str(s[2][1].get("d", "")).endswith("::" + name):
                return True
    return False


def walk_args(e):
    for a in e.args:
        yield from walk(a)


def r_read(cx):
    R = "decoded bytes read"
    cx.rule(R, "a reader waits for the bytes it wants to be published, and makes slices of the shared buffer no longer than what is published; what it waits for is never past the end of the decoded data, "
               "so that it is woken at the latest when all is decoded; no lock is held while waiting")
    path = published_path(cx)
    n = 0
    for k in sorted(cx.roots(lambda f: (f.get("trait") or "").split("::")[-1] == "Source" and "SeekableDecoder" in (f.get("self") or "") + f["path"])):
        name = cx.fn(k)["name"]
        ts = cx.traces(k)
        for t in ts:
            ws = [e for e in flat(t.effs) if e.kind == "wait"]
            frps = {x for e in flat(t.effs) for a in e.args for x in walk(a) if x.op in ("call", "pure") and x.a[0] == FRP}
            if t.val is not None:
                frps |= {x for x in walk(t.val) if x.op in ("call", "pure") and x.a[0] == FRP}
            if any(x.op in ("call", "pure") and x.a[0].startswith("core::slice::raw::") and x.a[0] != FRP for e in flat(t.effs) for a in e.args for x in walk(a)):
                raise Anchor("raw slices in %s" % k)
            if not ws and not frps:
                continue
            n += 1
            # --- waiting
            held = 0
            for e in flat(t.effs):
                if e.kind == "lock":
                    held += 1
                elif e.kind == "drop" and "Guard<" in e.name:
                    held -= 1
                elif e.kind == "wait":
                    cx.ob(R, k, "nothing else is locked while waiting", held == 1, "%d locks are held" % held)
            # --- slices
            for f in frps:
                p, ln = f.a[1][0], f.a[1][1]
                m, pth = locked_of(ln)
                if p.op != "fld":
                    raise Anchor("raw slice of %s" % show(p))
                if m is None:
                    low = [x for x in walk(ln) if x.op in ("locked", "waited")]
                    if low:
                        raise Anchor("length of a raw slice: %s" % show(ln))
                    # not a published size: is it at most what was waited for?
                    cx.ob(R, k, "slice of what is published", waited_at_least(t, ws, path, ln), "a slice of %s bytes is made" % show(ln))
                    continue
                own = mutex_of(m) if m.op == "locked" else m.a[0]
                own = own if m.op == "locked" else (own.a[0] if own.op == "fld" else own)
                cx.ob(R, k, "slice of what is published", pth == path and own.op == "fld" and own.a[0] is p.a[0], "a slice of %s is made with the length %s" % (show(p), show(ln)))
    cx.ob(R, "crate", "reads", n >= 3, "%d" % n)


def waited_at_least(t, ws, path, x):
    for w in ws:
        v = w.x["val"]
        for p in path:
            v = mk("fld", v, p)
        if implied(t, le(x, v)) is True:
            return True
    return False


def reads(cx):
    """(key, name, traces, offset, length or end terms) of the reading methods"""
    for name, off, end in (("read", A[1], None), ("read_exact", A[1], None), ("get_slice", None, None)):
        k = cx.m("SeekableDecoder", name, "Source")
        yield k, name


def r_wait(cx):
    R = "waits"
    cx.rule(R, "reading inside the decoded data: once everything wanted is published a reader does not wait, it gets the bytes wanted and no error; while they are not all there it does not slice them; a "
               "failed decoding is an error and not a wait")
    path = published_path(cx)
    f_tot = cx.field("SyncVecRd", r"^usize$")
    for k, name in reads(cx):
        tots = {y for t in cx.traces(k) for x in list(t.bnd) + list(t.facts) for y in walk(x) if y.op == "fld" and y.a[1] == f_tot}
        if len(tots) != 1:
            raise Anchor("the total size in %s" % k)
        tot = tots.pop()
        if name == "get_slice":
            rb, re_ = F(A[1], "begin"), F(A[1], "end")
            off, end, blen = rb, re_, None
            ins = [rb, re_]
        else:
            off, blen = A[1], mk_len(A[2])
            end = add(off, blen)
            ins = [off, blen]
        ts = cx.traces(k)
        cases = 0
        bad = {}
        for total in (0, 1, 4, 4096, 9000):
            for a in sorted({0, 1, 3, 4096, 5000, total, max(0, total - 1)}):
                for b in sorted({0, 1, 2, 4096, total, max(0, total - 1)}):
                    env0 = {tot: total, ins[0]: a, ins[1]: b}
                    o_, e_ = a, (b if name == "get_slice" else a + b)
                    if o_ > total or o_ > e_:
                        continue
                    inside = e_ <= total
                    if not inside and name != "read":
                        continue
                    need = min(e_, total)
                    if name == "read" and need == o_:
                        need = o_
                    for pub in sorted({0, need, max(0, need - 1), total, total // 2}):
                        if pub > total:
                            continue
                        for failed in (0, 1):
                            live = [t for t in ts if starts(t, env_at(t, env0, pub, failed, path)) and not crc_asked(t)]
                            cases += 1
                            enough = pub >= need
                            if not live:
                                bad["no path for a read of %d..%d of %d" % (o_, e_, total)] = 1
                                continue
                            go = [t for t in live if agrees(t, env_at(t, env0, pub, failed, path))]
                            at = "%d..%d of %d with %d decoded" % (o_, e_, total, pub)
                            if not go and enough:
                                bad["a read of %s waits although all it wants is decoded" % at] = 1
                            elif not go and failed:
                                bad["a read of %s waits for ever after the decoding failed" % at] = 1
                            for t in go:
                                oor = t.kind == "ret" and not is_err(t) and outside(t, env_at(t, env0, pub, failed, path))
                                if enough and (t.kind == "panic" or is_err(t)):
                                    bad["a read of %s fails" % at] = 1
                                elif oor:
                                    bad["a read of %s slices out of the decoded bytes" % at] = 1
                                elif failed and not enough and t.kind == "panic":
                                    bad["a read of %s panics after the decoding failed" % at] = 1
                                elif not enough and t.kind == "ret" and not is_err(t) and (name != "read" or pub <= o_):
                                    bad["a read of %s goes on" % at] = 1
        for m in sorted(bad)[:3]:
            cx.ob(R, k, "read", False, m)
        cx.ob(R, k, "cases", cases > 50, "%d cases" % cases)


def crc_asked(t):
    return implied(t, eq(mk("discr", A[2]), c(1))) is True


def env_at(t, env0, pub, failed, path):
    """the inputs, and everything read under the mutex with `pub` bytes published"""
    env = dict(env0)
    lvs = waited_lvs(t)
    for x in list(t.bnd) + list(t.facts) + [a for e in flat(t.effs) for a in e.args] + [t.val]:
        for y in walk(x) if x is not None else ():
            if y.op in ("fld", "locked", "waited") or y in lvs:
                m, p = locked_of(y, lvs=lvs)
                if m is None:
                    continue
                if p == path:
                    env[y] = pub
                elif len(p) == len(path) and p != path:
                    env[y] = failed
    return env


def facts_hold(t, env, only=None):
    for x, v in t.facts.items():
        if only is not None and not only(x):
            continue
        r = evs(x, env)
        if r is not None and bool(r) != bool(v):
            return False
    return True


def has_pub(x, lvs=()):
    return any(y.op in ("locked", "waited") or y in lvs for y in walk(x))


def starts(t, env):
    """the inputs allow the path"""
    lvs = waited_lvs(t)
    return holds({x: v for x, v in t.bnd.items() if not has_pub(x, lvs)}, env) and facts_hold(t, env, lambda x: not has_pub(x, lvs))


def agrees(t, env):
    """and so does what is read under the mutex"""
    lvs = waited_lvs(t)
    return holds({x: v for x, v in t.bnd.items() if has_pub(x, lvs)}, env) and facts_hold(t, env, lambda x: has_pub(x, lvs))


def outside(t, env):
    for x in [y for e in flat(t.effs) for a in e.args for y in walk(a)] + list(walk(t.val)):
        if x.op == "slice" and x.a[0].op in ("call", "pure") and x.a[0].a[0] == FRP:
            a, b, n = evs(x.a[1], env), evs(x.a[2], env), evs(x.a[0].a[1][1], env)
            if None in (a, b, n):
                raise Anchor("slice %s" % show(x))
            if not 0 <= a <= b <= n:
                return True
    return False


RULES = [("decoded bytes published", r_write), ("shared buffer", r_shared), ("decoded bytes read", r_read), ("waits", r_wait)]
