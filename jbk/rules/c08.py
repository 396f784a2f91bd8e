"""C08 — what is created does not depend on how the compression workers are scheduled."""
from .core import *
from .wire import *
from .layout import *
from . import c04, c05, c14, cluster
from .cluster import Sub, recvs, recv_loops, cluster_in, check_tail, check_data, written_at, Positions, STOPS, TELL

LEVEL = "other"
FLOOR = 200
TECHNIQUE = ("message-passing confluence argument decided on MIR: every iteration of the writer thread and of a worker is summarised as a function of the message it received alone "
             "(the address kept under a cluster's own id is the place of that cluster's own tail, tables only grow, buffers are fresh per message), so that completion order cannot be "
             "observed; typestate on channel ends, joins, the back-pressure counter and its lock for termination")
ASSUMPTIONS = ["std mpsc and spmc channels deliver every message sent once to one receiver, do not block the sender, and recv fails only when every sender is dropped",
               "Mutex, Condvar and thread join as documented; compression workers get CPU time (fair scheduler)", "the encoders are functions of the bytes they are given",
               "io::copy copies a reader to its end or fails"]

JOIN = re.compile(r"JoinHandle<.*>::join$|JoinHandle::<.*>::join$|^<T>::join$|::join$")
SEND = re.compile(r"::(try_)?send$")
BLOCK = re.compile(r"(::recv|::recv_timeout|::join|Barrier::wait|thread::park)$")
SHRINK = re.compile(r"Vec.*::(truncate|clear|pop|remove|swap_remove|insert|swap|split_off|drain|retain|dedup\w*|reverse|sort\w*|rotate_\w+)$|slice::.*::(swap|reverse|sort\w*|rotate_\w+)$")


def deep_updates(v, stop):
    """updates applied to the object `stop` on the way to v: [(key, value, object before)], newest first; calls that changed it: [name]"""
    ups, hvs = [], []
    n = 0
    while v is not stop and n < 200:
        n += 1
        if v.op == "upd":
            ups.append((v.a[1], v.a[2], v.a[0]))
            v = v.a[0]
        elif v.op == "hv":
            hvs.append(v.a[1])
            v = v.a[0]
        elif v.op == "push":
            ups.append(("push", v.a[1], v.a[0]))
            v = v.a[0]
        else:
            raise Anchor("table of cluster addresses becomes %s" % show(v)[:120])
    return ups, hvs


def own_elem(init, table, K, v):
    """v is what the table (or an earlier state of it) already holds at K"""
    if v.op == "lv" and v in init:
        v = init[v]
    if v.op != "idx" or v.a[1] is not K:
        return False
    b = v.a[0]
    while b.op in ("upd", "hv", "push"):
        b = b.a[0]
    return b is table or b is init[table]


def r_writer(cx):
    R = "by-id"
    cx.rule(R, "each iteration of the writer thread takes one message and records exactly one address: under the id carried by that message, the place where the bytes of that message "
               "(and its tail, for a cluster it lays out itself) went on the file; the table of addresses only grows")
    k = cx.m("ClusterWriter", "run", "")
    fld_addr = cx.field("ClusterWriter", r"Vec<.*SizedOffset")
    seen = set()
    for t, e in recv_loops(cx, k):
        tl = [x for x in e.x["init"] if e.x["init"][x] is F(A[0], fld_addr)]
        if len(tl) != 1:
            raise Anchor("table of cluster addresses")
        tl = tl[0]
        cx.ob(R, k, "the table is returned", contains(okval(t), lambda x: x is tl), "returns %s" % show(okval(t))[:200])
        end_of_input(cx, R, k, t)
        for it in e.x["iters"]:
            s = Sub(t, it)
            rs = recvs(s)
            cx.ob(R, k, "one message per iteration", len(rs) == 1, "%d" % len(rs))
            if len(rs) != 1:
                continue
            msg = s.E.payload(rs[0].res, "Ok", "0")
            v = discrs(cx, "WriteTask")
            var = [n for n, d in v.items() if s.E.decide(s.st, eq(mk("discr", msg), c(d))) is True]
            if len(var) != 1 or var[0] not in ("Cluster", "Compressed"):
                raise Anchor("kind of message not decided: %s" % var)
            var = var[0]
            ups, hvs = deep_updates(it.next.get(tl, tl), tl)
            bad = [h for h in hvs if SHRINK.search(h)]
            cx.ob(R, k, "%s: the table only grows" % var, not bad, "the table goes through %s" % bad)
            for x in flat(it.effs):
                if x.kind == "call" and re.search(r"Vec.*::resize(_with)?$", x.name) and x.args and s.base(x.args[0]) in (tl, F(A[0], fld_addr)):
                    n0 = mk_len(strip_tab(x.args[0], tl))
                    g = s.E.decide(s.st, le(n0, x.args[1])) is True or x.args[1].op == "max" and n0 in x.args[1].a
                    cx.ob(R, k, "%s: resized only to a bigger size" % var, g is True, "resize to %s may drop addresses already recorded" % show(x.args[1]))
            real = [u for u in ups if u[0] == "push" or not own_elem(e.x["init"], tl, u[0][1] if isinstance(u[0], tuple) else None, u[1])]
            cx.ob(R, k, "%s: one address recorded" % var, len(real) == 1, "%d addresses change" % len(real))
            if len(real) != 1:
                continue
            key, X, _ = real[0]
            if isagg(X, None, "Some") or isagg(X, "Late"):
                X = s.E.payload(X, "Some", "0") if isagg(X, None, "Some") else s.E.payload(fld(X, "0"), "Some", "0")
            seen.add(var)
            if var == "Cluster":
                C = s.E.payload(msg, "Cluster", "0")
                own = fld(C, "index")
                cx.ob(R, k, "Cluster: recorded under its own id", key != "push" and unconv(key[1], 32) is own, "recorded at %s" % (key if key == "push" else show(key[1])))
                if s.E.decide(s.st, eq(mk_len(fld(C, "offsets")), c(0))) is True:
                    continue
                pos, i, te = check_tail(cx, R, k, "Cluster", s, C, 0)
                check_data(cx, R, k, "Cluster", s, C, pos, i)
                written_at(cx, R, k, "Cluster", s, X, pos, (i, te))
            else:
                data, rel, own = (s.E.payload(msg, "Compressed", str(i)) for i in range(3))
                cx.ob(R, k, "Compressed: recorded under its own id", key != "push" and unconv(key[1], 32) is own, "recorded at %s" % (key if key == "push" else show(key[1])))
                root = stream_of(s)
                pos = Positions(s, root)
                w = [x for x in pos.log if x[0] == "call" and x[2].name.endswith("::write_all")]
                ok_ = len(pos.log) == 1 and len(w) == 1 and w[0][2].args[1] is data
                cx.ob(R, k, "Compressed: its bytes, once, whole", ok_, "writes %s" % [(x[2].name, show(x[2].args[1])[:100] if len(x[2].args) > 1 else "") for x in pos.log])
                off, size = pos.res(unconv(fld(X, "offset"))), unconv(fld(X, "size"))
                cx.ob(R, k, "Compressed: address = place in the buffer + place of the buffer", off is add(fld(rel, "offset"), sym("P0")), "keeps %s" % show(off)[:200])
                cx.ob(R, k, "Compressed: tail size as announced", size is fld(rel, "size"), "keeps %s" % show(size)[:200])
    cx.ob(R, k, "both kinds of message", seen == {"Cluster", "Compressed"}, "%s" % sorted(seen))


def strip_tab(v, tl):
    """the table before the call (element updates do not change its length)"""
    while v is not tl and v.op == "upd":
        v = v.a[0]
    return v


def stream_of(s):
    roots = {s.base(x.args[0]) for x in flat(s.effs) if x.kind == "call" and (TELL.search(x.name) or x.name.endswith("::write_all"))}
    if len(roots) != 1:
        raise Anchor("stream of the writer thread")
    return roots.pop()


def end_of_input(cx, R, k, t):
    """the thread ends well only when its input is closed"""
    rs = [x for x in flat(t.effs) if x.kind == "call" and re.search(r"::(recv|try_recv|recv_timeout)$", x.name)]
    ok_ = any(t.E.decide(t.st, eq(mk("discr", x.res), c(1))) is True and (x.name.endswith("::recv") or closed(t, x)) for x in rs)
    cx.ob(R, k, "ends when the input is closed", ok_, "the loop may end although messages may still come")


def closed(t, e):
    return t.E.decide(t.st, eq(mk("discr", t.E.payload(e.res, "Err", "0")), c(1))) is True


def fresh_buffer(s, v):
    """v is (what a new stream of this iteration made of) a vector created in this iteration"""
    b = v
    n = 0
    while b.op in ("hv", "upd", "push") and n < 50:
        n, b = n + 1, b.a[0]
    a = cluster.call_of(b, "::new$|::with_capacity$")
    return b.op == "vec" or (a is not None and not any(x.op == "lv" for x in walk(b)))


def r_worker(cx):
    R = "worker"
    cx.rule(R, "each iteration of a worker takes one cluster, lays it out in a buffer made in that iteration and sends exactly that buffer with that cluster's id and the place of its tail; "
               "it then takes one off the back-pressure counter under its lock and signals after taking the lock; a worker ends only when no more cluster can come")
    k = cx.m("ClusterCompressor", "run", "")
    ctr = cx.field("ClusterCompressor", r"Mutex<usize>")
    cond_, mux = F(A[0], ctr, "1"), F(A[0], ctr, "0")
    n = 0
    for t, e in recv_loops(cx, k):
        end_of_input(cx, R, k, t)
        for it in e.x["iters"]:
            s = Sub(t, it)
            rs = recvs(s)
            cx.ob(R, k, "one cluster per iteration", len(rs) == 1, "%d" % len(rs))
            if len(rs) != 1:
                continue
            C, _ = cluster_in(s, rs[0], cx)
            if C is None:
                raise Anchor("message of a worker")
            snd = [x for x in flat(it.effs) if x.kind == "call" and SEND.search(x.name)]
            cx.ob(R, k, "one answer per cluster", len(snd) == 1, "%d messages sent" % len(snd))
            counter(cx, R, k, s, it, mux, cond_)
            if len(snd) != 1:
                continue
            m = snd[0].args[1]
            if isagg(m, None, "Cluster"):
                cx.ob(R, k, "a cluster handed on unchanged", base_obj(agg_get(m, "0")) is C, show(m)[:200])
                continue
            if not isagg(m, None, "Compressed"):
                raise Anchor("answer of a worker %s" % show(m)[:100])
            data, X, idx = (fld(m, str(i)) for i in range(3))
            n += 1
            cx.ob(R, k, "under the cluster's own id", unconv(idx, 32) is fld(C, "index"), "sends %s" % show(idx))
            if s.E.decide(s.st, eq(mk_len(fld(C, "offsets")), c(0))) is True:
                continue
            pos, i, te = check_tail(cx, R, k, "worker", s, C, None)
            check_data(cx, R, k, "worker", s, C, pos, i)
            written_at(cx, R, k, "worker", s, X, pos, (i, te))
            buf = base_obj(data)
            ii = cluster.call_of(buf, r"Cursor::<.*>::into_inner$")
            if ii is not None:
                buf = data = cluster.call_of(s.base(ii[0]), r"::new$")[0]
            a = cluster.call_of(pos.root, r"::new$")
            over = pos.root is buf or (a is not None and len(a) == 1 and base_obj(a[0]) is buf)
            cx.ob(R, k, "the buffer sent is the one written", over, "sends %s, writes to %s" % (show(data)[:120], show(pos.root)[:120]))
            cx.ob(R, k, "a buffer of its own", fresh_buffer(s, data) and buf.op != "lv", "the buffer %s outlives the iteration" % show(buf)[:120])
            first = s.E.decide(s.st, eq(mk_len(buf), c(0))) is True or mk_len(buf) is c(0) or buf.op == "vec"
            cx.ob(R, k, "an empty buffer", first, "starts with %s" % show(buf)[:100])
    cx.ob(R, k, "compressed answers", n >= 3, "%d" % n)


def counter(cx, R, k, s, it, mux, cond_):
    es = list(flat(it.effs))
    lk = [i for i, x in enumerate(es) if x.kind == "lock" and x.args[0] is mux]
    if not lk:
        cx.ob(R, k, "the counter is decremented", False, "a path does not touch the back-pressure counter")
        return
    dr = [(i, x) for i, x in enumerate(es) if x.kind == "drop" and "MutexGuard" in x.name and i > lk[0]]
    if len(lk) != 1 or len(dr) != 1:
        raise Anchor("the counter is locked %d times, released %d times" % (len(lk), len(dr)))
    lkd = [x for x in walk(dr[0][1].args[0]) if x.op == "locked" and x.a[0] is mux]
    cx.ob(R, k, "the counter is decremented by one", bool(lkd) and dr[0][1].args[0] is sub(lkd[0], c(1)), "the counter becomes %s" % show(dr[0][1].args[0]))
    nt = [i for i, x in enumerate(es) if x.kind == "call" and re.search(r"Condvar::notify_(one|all)$", x.name) and x.args[0] is cond_]
    # (a path that knows clusters are left in the queue may leave the signal to the one that empties it)
    more = bool(lkd) and (s.E.decide(s.st, le(c(1), sub(lkd[0], c(1)))) is True or s.E.decide(s.st, eq(sub(lkd[0], c(1)), c(0))) is False)
    cx.ob(R, k, "then the waiting insertion is signalled", more or any(i > lk[0] for i in nt), "no signal after the counter changed")
    held = [x for x in es[lk[0]:dr[0][0]] if x.kind in ("wait", "lock") and x is not es[lk[0]] or x.kind == "call" and BLOCK.search(x.name)]
    cx.ob(R, k, "nothing blocks while the counter is locked", not held, "%s" % [x.name for x in held])


def r_dispatch(cx):
    R = "dispatch"
    cx.rule(R, "every path of write_cluster that succeeds hands the cluster to exactly one channel: to the workers only when there is a compression (after adding one to the counter, under its "
               "lock, having waited only while clusters are in the queue), to the writer otherwise")
    k = cx.m("ClusterWriterProxy", "write_cluster", "")
    ctr = cx.field("ClusterWriterProxy", r"Mutex<usize>")
    comp = cx.field("ClusterWriterProxy", r"Compression$")
    mq = [f for f in cx.fields("ClusterWriterProxy", r"^usize$")]
    dtx, ftx = senders(cx)
    mux, cond_ = F(A[0], ctr, "0"), F(A[0], ctr, "1")
    kinds = set()
    for t in oks(cx.traces(k, paths=True)):
        es = list(flat(t.effs))
        snd = [(i, x) for i, x in enumerate(es) if x.kind == "call" and SEND.search(x.name) and contains(x.args[1], lambda y: y is A[1])]
        cx.ob(R, k, "one channel", len(snd) == 1, "the cluster is sent %d times" % len(snd))
        if len(snd) != 1:
            continue
        i, x = snd[0]
        ch = base_obj(x.args[0])
        good = t.E.decide(t.st, eq(mk("discr", x.res), c(0)))
        lk = [j for j, y in enumerate(es) if y.kind == "lock" and y.args[0] is mux]
        whole = x.args[1] is A[1] or isagg(x.args[1], None, "Cluster") and agg_get(x.args[1], "0") is A[1]
        cx.ob(R, k, "the cluster as given", whole, "sends %s" % show(x.args[1])[:200])
        if ch is F(A[0], dtx):
            kinds.add("workers")
            none = t.E.decide(t.st, eq(mk("discr", F(A[0], comp)), c(discrs(cx, "Compression")["None"])))
            cx.ob(R, k, "to the workers only with a compression", none is False, "the pack may have no compression")
            dr = [(j, y) for j, y in enumerate(es) if y.kind == "drop" and "MutexGuard" in y.name]
            if len(lk) != 1 or len(dr) != 1:
                if not lk:
                    cx.ob(R, k, "counted", False, "the cluster is not added to the back-pressure counter")
                    continue
                raise Anchor("the counter is locked %d times, released %d times" % (len(lk), len(dr)))
            v = dr[0][1].args[0]
            cur = [y for y in walk(v) if y.op in ("waited", "locked") or waited_lv(t, y)]
            cx.ob(R, k, "counted", bool(cur) and v is add(cur[0], c(1)), "the counter becomes %s" % show(v)[:100])
            held = [y for y in es[lk[0]:dr[0][0]] if y.kind == "lock" and y is not es[lk[0]] or y.kind == "call" and BLOCK.search(y.name)]
            cx.ob(R, k, "nothing blocks while the counter is locked", not held, "%s" % [y.name for y in held])
            for w in [y for y in es if y.kind == "wait"]:
                cx.ob(R, k, "waits on the counter's signal", w.args[0] is cond_, show(w.args[0]))
                if w.name != "wait_while":
                    continue
                p = rebuild(w.x["pred"], lambda y: c(0) if y is w.x["val"] else y)
                st = t.st.__class__()
                for f in mq:
                    t.E.assume(st, le(c(1), F(A[0], f)), True)
                cx.ob(R, k, "waits only while clusters are in the queue", p is FALSE or t.E.decide(st, p) is False, "with an empty queue it still waits while %s" % show(p)[:120])
            for y in [y for y in walk(v) if y.op == "lv"]:
                for it in waited_lv(t, y).x["iters"] if waited_lv(t, y) else []:
                    for w in [z for z in it.effs if z.kind == "wait"]:
                        cx.ob(R, k, "waits on the counter's signal", w.args[0] is cond_, show(w.args[0]))
                    for f in mq:
                        t.E.assume(it.st, le(c(1), F(A[0], f)), True)
                    cx.ob(R, k, "waits only while clusters are in the queue", t.E.decide(it.st, le(c(1), y)) is True or any(t.E.decide(it.st, le(F(A[0], f), y)) is True for f in mq), "it may wait with an empty queue")
        elif ch is F(A[0], ftx):
            kinds.add("writer")
            ch2 = [y for y in es if y.kind == "drop" and "MutexGuard" in y.name and y.args[0].op not in ("locked", "waited")]
            cx.ob(R, k, "to the writer: not counted", not ch2, "the counter is changed for a cluster no worker takes")
        else:
            raise Anchor("channel %s" % show(ch)[:100])
    cx.ob(R, k, "both ways", kinds == {"workers", "writer"}, "%s" % sorted(kinds))


def waited_lv(t, v):
    """the loop a counter value was waited for in, when every turn of it waits"""
    if v.op != "lv":
        return None
    for e in t.effs:
        if e.kind == "loop" and v in e.x["init"]:
            i0 = e.x["init"][v]
            if i0.op in ("locked", "waited") and all(it.next.get(v) is not None and it.next[v].op == "waited" for it in e.x["iters"]):
                return e
    return None


def senders(cx):
    """fields of the proxy that send to the workers and to the writer"""
    d = cx.fields("ClusterWriterProxy", r"Sender<.*ClusterCreator>")
    f = cx.fields("ClusterWriterProxy", r"Sender<.*WriteTask>")
    if len(d) != 1 or len(f) != 1:
        raise Anchor("channels of the cluster writer: %s %s" % (d, f))
    return d[0], f[0]


def chan(v, i):
    """the channel v is end i of (term of the pair)"""
    v = base_obj(v)
    return v.a[0] if v.op == "fld" and v.a[1] == str(i) and v.a[0].op == "call" and v.a[0].a[0].endswith("channel") else None


def r_threads(cx):
    R = "threads"
    cx.rule(R, "workers receive from the channel the dispatcher sends to and answer to the writer's channel, share the dispatcher's counter and compression, and run to their result; the writer "
               "thread holds no sending end (it ends when the others are done); there is at least one worker and the queue limit is at least one")
    k = cx.m("ClusterWriterProxy", "new", "")
    dtx, ftx = senders(cx)
    ctr = cx.field("ClusterWriterProxy", r"Mutex<usize>")
    comp = cx.field("ClusterWriterProxy", r"Compression$")
    mq = cx.field("ClusterWriterProxy", r"^usize$")
    for t in oks(cx.traces(k)) or [x for x in cx.traces(k) if x.kind == "ret"]:
        P = t.val
        if not isagg(P, "ClusterWriterProxy"):
            raise Anchor("ClusterWriterProxy::new returns %s" % show(P)[:100])
        dch, fch = chan(fld(P, dtx), 0), chan(fld(P, ftx), 0)
        if dch is None or fch is None:
            raise Anchor("channels of the cluster writer")
        seen = set()
        for e in flat(t.effs):
            if e.kind != "call" or not re.search(r"::spawn(_unchecked)?$", e.name):
                continue
            clo = e.args[-1]
            if not (clo.op == "agg" and clo.a[0] == "closure"):
                raise Anchor("spawned function")
            ck = clo.a[1]
            for ct in cx.traces(ck, stop=["Cluster(Compressor|Writer)(::<.*>)?::run$"]):
                if ct.kind != "ret":
                    continue
                runs = [x for x in flat(ct.effs) if x.kind == "call" and x.name.endswith("::run")]
                if len(runs) != 1:
                    cx.ob(R, k, "a thread runs its loop", False, "%d loops are run" % len(runs))
                    continue
                S = rebuild(runs[0].args[0], lambda x: fld(clo, x.a[1]) if x.op == "fld" and x.a[0] is A[0] else x)
                S = S if S.op == "agg" else base_obj(S)
                cx.ob(R, k, "a thread returns the result of its loop", ct.val is runs[0].res, "returns %s" % show(ct.val)[:200])
                if isagg(S, "ClusterCompressor"):
                    seen.add("worker")
                    f = {n: fld(S, n) for n in ("input", "output", "compression")}
                    fc = cx.field("ClusterCompressor", r"Mutex<usize>")
                    cx.ob(R, k, "workers take what is dispatched", chan(f["input"], 1) is dch, show(f["input"]))
                    cx.ob(R, k, "workers answer to the writer", chan(f["output"], 0) is fch, show(f["output"]))
                    cx.ob(R, k, "workers share the counter", base_obj(fld(S, fc)) is base_obj(fld(P, ctr)), show(fld(S, fc)))
                    cx.ob(R, k, "workers use the pack's compression", f["compression"] is fld(P, comp) and f["compression"] is A[1], show(f["compression"]))
                    cx.ob(R, k, "workers do not feed themselves", not contains(clo, lambda x: x is mk("fld", dch, "0")), "a worker holds the dispatching end: it never sees the end of its input")
                elif isagg(S, "ClusterWriter"):
                    seen.add("writer")
                    wi = cx.field("ClusterWriter", r"Receiver<")
                    cx.ob(R, k, "the writer takes what is sent to it", chan(fld(S, wi), 1) is fch, show(fld(S, wi)))
                    snd = [x for x in walk(clo) if x is mk("fld", fch, "0") or x is mk("fld", dch, "0")]
                    cx.ob(R, k, "the writer thread holds no sending end", not snd, "the writer never sees the end of its input")
                    ad = cx.field("ClusterWriter", r"Vec<.*SizedOffset")
                    cx.ob(R, k, "no address at first", mk_len(fld(S, ad)) is c(0), show(fld(S, ad)))
                else:
                    raise Anchor("thread of %s" % show(S)[:100])
        cx.ob(R, k, "workers and writer", seen == {"worker", "writer"}, "%s" % sorted(seen))
        leaks = [e for e in flat(t.effs) if e.kind == "forget" or e.kind == "call" and re.search(r"::(leak|into_raw)$", e.name)]
        cx.ob(R, k, "no channel end is leaked", not leaks, "%s" % [show(e.args[0])[:80] for e in leaks])
        w = fld(P, cx.field("ClusterWriterProxy", r"Vec<.*JoinHandle"))
        cnt = [x for x in walk(w) if isagg(x, "Range")]
        if w.op != "collect" or not cnt:
            raise Anchor("number of workers")
        n = sub(fld(cnt[0], "end"), fld(cnt[0], "start"))
        ps = [x for x in walk(n) if x in A]
        q = fld(P, mq)
        st = t.st.__class__()
        for p in ps:
            t.E.assume(st, le(c(1), p), True)
        cx.ob(R, k, "at least one worker", t.E.decide(st, le(c(1), n)) is True, "there are %s workers" % show(n))
        cx.ob(R, k, "the queue limit is at least one", t.E.decide(st, le(c(1), q)) is True, "the limit is %s" % show(q))
        cx.ob(R, k, "the counter starts at 0", fld(fld(P, ctr), "0") is mk("mutex", c(0)), show(fld(P, ctr)))
        for p in dict.fromkeys(ps):
            i = A.index(p)
            for ck in c05.callers(cx, r"ClusterWriterProxy.*::new$"):
                for ct in cx.traces(ck, stop=["ClusterWriterProxy.*::new$"]):
                    for e in [x for x in flat(ct.effs) if x.kind == "call" and re.search(r"ClusterWriterProxy.*::new$", x.name)]:
                        cx.ob(R, ck, "at least one worker is asked for", ct.E.decide(ct.st, le(c(1), e.args[i])) is True, "asks for %s workers" % show(e.args[i])[:150])


def r_finish(cx):
    R = "finish"
    cx.rule(R, "finishing drops the dispatching end before waiting for the workers and the writer's sending end before waiting for the writer; every worker is waited for and known to have "
               "succeeded, and what is returned is the writer's own result")
    k = cx.m("ClusterWriterProxy", "finalize", "")
    dtx, ftx = senders(cx)
    ws = F(A[0], cx.field("ClusterWriterProxy", r"Vec<.*JoinHandle"))
    wh = F(A[0], cx.field("ClusterWriterProxy", r"^.{0,40}JoinHandle<"))
    n = 0
    for t in oks(cx.traces(k, keep_drops=True)):
        n += 1
        es = t.effs
        dropped = {}
        for i, e in enumerate(es):
            if e.kind == "drop" and e.args:
                dropped.setdefault(base_obj(e.args[0]), i)
        jl = [i for i, e in enumerate(es) if e.kind == "loop" and any(x.kind == "call" and JOIN.search(x.name) for it in e.x["iters"] for x in it.effs)]
        jw = [i for i, e in enumerate(es) if e.kind == "call" and JOIN.search(e.name) and base_obj(e.args[0]) is wh]
        if len(jw) != 1:
            cx.ob(R, k, "the writer is waited for", False, "it is joined %d times" % len(jw))
            continue
        d, f = dropped.get(F(A[0], dtx)), dropped.get(F(A[0], ftx))
        first = min(jl + jw)
        cx.ob(R, k, "workers told there is no more cluster", d is not None and d < first, "the dispatching end is still open when threads are waited for")
        cx.ob(R, k, "the writer told there is no more cluster", f is not None and f < jw[0], "the writer's sending end is still open when it is waited for")
        empty = t.E.decide(t.st, eq(mk_len(ws), c(0))) is True
        if not jl:
            cx.ob(R, k, "the workers are waited for", empty, "no worker is joined")
        else:
            for i in jl:
                vis = visit(t, es[i], ws)
                if vis is None:
                    raise Anchor("loop over the workers")
                comp, rev, el = vis
                okj = True
                for it in es[i].x["iters"]:
                    js = [x for x in it.effs if x.kind == "call" and JOIN.search(x.name)]
                    okj = okj and len(js) == 1
                    for x in js:
                        r1 = t.E.decide(it.st, eq(mk("discr", x.res), c(0)))
                        r2 = t.E.decide(it.st, eq(mk("discr", t.E.payload(x.res, "Ok", "0")), c(0)))
                        cx.ob(R, k, "a worker's failure is not ignored", r1 is True and r2 is True, "finishing goes on although a worker may have failed")
                cx.ob(R, k, "every worker is waited for", comp and okj, "some workers are not joined")
        r = [es[jw[0]].res]
        want = t.E.payload(r[0], "Ok", "0")
        cx.ob(R, k, "the writer's result is returned", t.val is want or okval(t) is t.E.payload(want, "Ok", "0"), "returns %s" % show(t.val)[:200])
        leaks = [e for e in flat(es) if e.kind == "forget"]
        cx.ob(R, k, "no channel end is leaked", not leaks, "%s" % [show(e.args[0])[:80] for e in leaks])
    cx.ob(R, k, "success paths", n >= 1, "")


def r_late(cx):
    R = "late"
    cx.rule(R, "a late value that was set is what is later read: set stores the value given, get returns the value stored")
    k = cx.m("Late", "set", "")
    for t in [x for x in cx.traces(k) if x.kind == "ret"]:
        m = final(t, A[0])
        m = m if m.op == "agg" and m.a[1] == "Some" else fld(m, "0")
        cx.ob(R, k, "set", m.op == "agg" and m.a[1] == "Some" and fld(m, "0") is A[1], "stores %s" % show(m)[:100])
    k = cx.m("Late", "get", "")
    for t in [x for x in cx.traces(k) if x.kind == "ret"]:
        cx.ob(R, k, "get", t.val in (t.E.payload(F(A[0], "0"), "Some", "0"), t.E.payload(A[0], "Some", "0")), "returns %s" % show(t.val)[:100])


def r_pack(cx):
    c14.creators(cx, ("Content",))


RULES = [("by-id", r_writer), ("worker", r_worker), ("dispatch", r_dispatch), ("threads", r_threads), ("finish", r_finish), ("late", r_late),
         ("address", cluster.r_address), ("last-clusters", cluster.r_closed), ("pack", r_pack), ("creator-hash", c04.r_creators)]
