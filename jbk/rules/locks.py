"""which locks are taken, and which threads waited for, while a lock is held (C07)"""
import re
from .core import *

GUARD = re.compile(r"std::sync::\S*?(Mapped)?(Mutex|RwLockRead|RwLockWrite)Guard<'[^,]*, (.*)$")
LOCK = re.compile(r"(mutex::Mutex|rwlock::RwLock)::<T>::(lock|try_lock|read|write|try_read|try_write)$")
WAIT = re.compile(r"Condvar::(wait|wait_while|wait_timeout|wait_timeout_while|wait_timeout_ms)$")
ONCE = re.compile(r"(OnceLock|LazyLock)::<[^>]*>::(get_or_init|get_or_try_init|force)$|^std::sync::\S*Once::call_once$")
NOTIFY = re.compile(r"Condvar::notify_(one|all)$")
SPAWN = re.compile(r"(^|::)(spawn|spawn_fifo|spawn_broadcast|spawn_unchecked)$")
JOIN = re.compile(r"(JoinHandle(Inner)?::<T>::join|(Receiver|IntoIter)::<T>::(recv|recv_timeout|iter|into_iter|next)|ThreadPool::(install|scope|join|broadcast)|^rayon_core::(join|scope|broadcast)\S*|Barrier::wait|thread::park)$")


class Locks:
    def __init__(self, cx, keys=None):
        self.cx, self.lib = cx, cx.lib
        self.types = cx.lib.types
        self._acq, self._guards = {}, {}
        self.byself = {}
        for k, f in self.lib.fns.items():
            if f["local"] and f.get("trait") and f.get("self"):
                for n in re.findall(r"jubako::[\w:]+", f["self"]):
                    self.byself.setdefault(n, set()).add(k)
        self.closures = {}
        for k, f in self.lib.fns.items():
            if f.get("closure") and f["local"]:
                self.closures.setdefault(f["path"], []).append(k)

    def guards_of(self, ty):
        """classes of the guards a value of this type may hold"""
        if ty not in self._guards:
            self._guards[ty] = frozenset()
            t = self.types[ty]
            r = set()
            if t["k"] == "adt" and re.search(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard)$", t.get("d", "")):
                r.add(self.types[t["a"][-1]]["s"])
            elif t["k"] in ("adt", "tuple", "array", "slice"):
                for a in t.get("a", ()) or ():
                    if isinstance(a, int) and t.get("d", "").split("::")[-1] not in ("Arc", "Rc"):
                        r |= self.guards_of(a)
            self._guards[ty] = frozenset(r)
        return self._guards[ty]

    def site_callees(self, term, dyn=True):
        """local functions a call may run in this thread"""
        c_ = term["f"]
        r = set()
        d = c_.get("def") or ""
        spawn = bool(SPAWN.search(d)) and not c_.get("local")
        k = c_.get("key")
        if k in self.lib.fns and self.lib.fns[k]["local"]:
            r.add(k)
        elif c_.get("kind") in ("unresolved", "virtual") and c_.get("trait") and c_.get("m"):
            if dyn or not c_["trait"].endswith("::Source"):
                r.update(self.cx._traits().get((c_["trait"], c_["m"]), ()))
        elif not spawn:
            # code of another crate: it calls back what it is given
            for n in set(re.findall(r"jubako::[\w:]+", c_.get("full") or "")):
                r.update(x for x in self.byself.get(n.rstrip(":"), ()) if not (self.lib.fns[x].get("trait") or "").startswith("jubako::")
                         and called_by_others(self.lib.fns[x]))
        if not spawn:
            for a in list(term.get("at") or ()) + list(c_.get("ga") or ()):
                r.update(self.closures_in(a))
        return r

    def closures_in(self, ty, depth=0):
        t = self.types[ty] if isinstance(ty, int) else None
        r = set()
        if t is None or depth > 4:
            return r
        if t["k"] == "closure":
            r.update(self.closures.get(t["d"], ()))
        elif t["k"] == "fndef":
            k = t.get("key")
            ks = [k] if k in self.lib.fns else self.lib.by_path.get(t.get("d", ""), [])
            r.update(x for x in ks if self.lib.fns[x]["local"])
        elif t["k"] in ("ref", "adt", "tuple"):
            for a in t.get("a", ()) or ():
                r |= self.closures_in(a, depth + 1)
        return r

    def spawned(self):
        """closures which run in threads of their own"""
        r = set()
        for k, f in self.lib.fns.items():
            if not f["local"]:
                continue
            for b in f["blocks"]:
                t = b["t"]
                if t["k"] == "call" and SPAWN.search(t["f"].get("def") or "") and not t["f"].get("local"):
                    for a in list(t.get("at") or ()):
                        r |= {x for x in self.closures_in(a)}
        return r

    def direct(self, term):
        """classes a call acquires or waits for by itself"""
        c_ = term["f"]
        d = c_.get("def") or ""
        if LOCK.search(d) and c_.get("ga"):
            return {self.types[c_["ga"][0]]["s"]}
        if WAIT.search(d) and c_.get("ga"):
            return {"progress of " + self.types[c_["ga"][0]]["s"]}
        if ONCE.search(d) and c_.get("ga"):
            return {"once " + self.types[c_["ga"][0]]["s"]}
        if JOIN.search(d) and not c_.get("local"):
            return {"another thread"}
        return set()

    def acq(self, k, dyn=True):
        """{class: way} acquired by running k"""
        if (k, dyn) in self._acq:
            return self._acq[(k, dyn)]
        # closure over the call graph
        seen, todo, r = {k: None}, [k], {}
        while todo:
            x = todo.pop()
            for b in self.lib.fns[x]["blocks"]:
                t = b["t"]
                if t["k"] != "call":
                    continue
                for cl in self.direct(t):
                    r.setdefault(cl, (x, t.get("sp")))
                for y in self.site_callees(t, dyn):
                    if y not in seen:
                        seen[y] = x
                        todo.append(y)
        self._acq[(k, dyn)] = r
        return r

    def held_sites(self, k):
        """[(held classes, call)] of a body: the calls made while a guard is alive"""
        f = self.lib.fns[k]
        loc = f["locals"]
        gl = {i: self.guards_of(ty) for i, ty in enumerate(loc) if self.guards_of(ty)}
        if not gl:
            # a "once" runs its closure with itself held
            return [({x for x in self.direct(b["t"]) if x.startswith("once ")}, b["t"], True) for b in f["blocks"] if b["t"]["k"] == "call" and any(x.startswith("once ") for x in self.direct(b["t"]))]
        ins = {0: frozenset()}
        todo = [0]
        out = []
        bl = f["blocks"]
        done = {}
        while todo:
            i = todo.pop()
            h = set(ins[i])
            for s in bl[i]["s"]:
                if s[0] == "=":
                    for o in moved(s[2]):
                        h.discard(o)
                    if s[1][0] in gl and carries(s[2], gl, loc):
                        h.add(s[1][0])
                elif s[0] == "dead":
                    h.discard(s[1])
            t = bl[i]["t"]
            nxt = []
            if t["k"] == "call":
                for a in t.get("a") or ():
                    if "m" in a and not a["m"][1]:
                        h.discard(a["m"][0])
                done[i] = frozenset(h)
                if t.get("u") is not None:
                    nxt.append((t["u"], set(h)))
                if t.get("d") and t["d"][0] in gl:
                    h.add(t["d"][0])
                if t.get("t") is not None:
                    nxt.append((t["t"], h))
            elif t["k"] == "drop":
                if not t["p"][1]:
                    h.discard(t["p"][0])
                nxt = [(x, h) for x in (t.get("t"), t.get("u")) if x is not None]
            else:
                nxt = [(x, h) for x in succ(t)]
            for x, s_ in nxt:
                n = ins.get(x, None)
                m = frozenset(s_) | (n or frozenset())
                if n is None or m != n:
                    ins[x] = m
                    todo.append(x)
        for i, h in done.items():
            cls = set()
            for l in h:
                cls |= gl[l]
            t = bl[i]["t"]
            on = {x for x in self.direct(t) if x.startswith("once ")}
            if cls:
                out.append((cls, t, False))
            if on:
                out.append((on, t, True))
        return out


def called_by_others(f):
    tr = (f.get("trait") or "").split("::")[-1]
    return tr in ("Read", "Write", "Seek", "BufRead", "Drop", "Iterator", "Deref", "DerefMut", "Hash", "PartialEq", "Eq", "Ord", "PartialOrd", "Borrow", "AsRef", "From", "Into", "Hasher", "BuildHasher", "Display", "Debug")


def succ(t):
    r = []
    for x in ("t", "o", "u"):
        if isinstance(t.get(x), int):
            r.append(t[x])
    for z in t.get("ts") or ():
        r.append(z[1])
    return r


def moved(rv):
    r = []

    def f(x):
        if isinstance(x, dict):
            if "m" in x and isinstance(x["m"], list) and not x["m"][1]:
                r.append(x["m"][0])
            for y in x.values():
                f(y)
        elif isinstance(x, list):
            for y in x:
                f(y)
    f(rv)
    return r


def carries(rv, gl, loc):
    """a value made of a guard (not a reference to one)"""
    return rv[0] in ("use", "agg", "cast") and bool([x for x in uses(rv) if x in gl])


def uses(rv):
    r = []

    def f(x):
        if isinstance(x, dict):
            for kk in ("m", "c"):
                if kk in x and isinstance(x[kk], list):
                    r.append(x[kk][0])
            for y in x.values():
                f(y)
        elif isinstance(x, list):
            for y in x:
                f(y)
    f(rv)
    return r


def tidy(s):
    return re.sub(r"\b(?:\w+::)+(\w+)", r"\1", s)


def reading(cx):
    """functions which run when a container is read: everything local but the creator"""
    return [k for k, f in cx.lib.fns.items() if f["local"] and not re.search(r"jubako::creator::", f["path"])]


def graph(cx):
    lk = Locks(cx)
    edges = {}
    nsites = 0
    for k in reading(cx):
        f = cx.lib.fns[k]
        for held, t, once in lk.held_sites(k):
            nsites += 1
            got = {}
            if not once:
                for x in lk.direct(t):
                    got.setdefault(x, (k, t.get("sp")))
            for y in lk.site_callees(t):
                for x, way in lk.acq(y).items():
                    got.setdefault(x, (k, t.get("sp"), way))
            for h in held:
                for x, way in got.items():
                    edges.setdefault((h, x), way)
    # a progress is made by the threads which tell it
    for k in sorted(lk.spawned()):
        a = lk.acq(k)
        told = set()
        for y in cx.reach([k]):
            f = cx.lib.fns[y]
            if any(b["t"]["k"] == "call" and NOTIFY.search(b["t"]["f"].get("def") or "") for b in f["blocks"]):
                told |= {x for b in f["blocks"] if b["t"]["k"] == "call" and LOCK.search(b["t"]["f"].get("def") or "") for x in lk.direct(b["t"])}
        own = lk.acq(k, False)
        for x in told:
            p = "progress of " + x
            for y, way in a.items():
                # a decoding task may read through a source which is itself being decoded: that one was started before it, on the same queue, and never waits for a later one.
                # What it must not do is wait for itself
                if y != p or y in own:
                    edges.setdefault((p, y), (k, way[1], way))
    return lk, edges, nsites


def r_order(cx):
    R = "order of locks"
    cx.rule(R, "what may be locked, initialised or waited for while a lock is held, over the whole call graph of the reader (a wait stands for what the thread waited for locks): no cycle, so no set of "
               "threads can wait for each other")
    lk, edges, n = graph(cx)
    nodes = {x for e in edges for x in e}
    cyc = cycle(edges)
    cx.ob(R, "crate", "call sites with a lock held", n >= 3, "%d sites" % n)
    for (a, b), way in sorted(edges.items(), key=str):
        cx.ob(R, way[0], "%s then %s" % (tidy(a), tidy(b)), True, "")
    if cyc:
        way = [edges[(cyc[i], cyc[(i + 1) % len(cyc)])] for i in range(len(cyc))]
        cx.ob(R, way[0][0], "no cycle", False, "; ".join("%s may be wanted while %s is held, in %s (%s)" % (tidy(cyc[(i + 1) % len(cyc)]), tidy(cyc[i]), w[0], w[1]) for i, w in enumerate(way)))
    else:
        cx.ob(R, "crate", "no cycle", True, "")


def cycle(edges):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, []).append(b)
    for s in sorted(adj):
        # path from s back to s
        prev, todo = {}, [s]
        while todo:
            x = todo.pop(0)
            for y in adj.get(x, ()):
                if y == s:
                    p = [x]
                    while p[-1] != s:
                        p.append(prev[p[-1]])
                    return list(reversed(p))
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
    return None


# ---- unsafe ------------------------------------------------------------------------------------------
UNSAFE = re.compile(r"(::from_raw_parts(_mut|_in)?|::set_len|::from_utf8_unchecked(_mut)?|::get_unchecked(_mut)?|::unwrap_unchecked|^core::mem::(transmute|zeroed|uninitialized|transmute_copy)\S*|::assume_init\S*|"
                    r"ptr::(read|write|copy|copy_nonoverlapping|swap|replace)\S*|MmapOptions::map\w*|Mmap::map\w*|::as_ref_unchecked|ptr::\S*::(offset|add|sub)|::from_raw(_in)?|ManuallyDrop::<T>::(drop|take))$")


def r_unsafe(cx, judged, R="unsafe operations"):
    cx.rule(R, "operations the compiler does not check are only made where another rule decides that they are sound")
    n = 0
    late = []
    for k, f in sorted(cx.lib.fns.items()):
        if not f["local"] or not f.get("root"):
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t["k"] == "call" and UNSAFE.search(t["f"].get("def") or "") and not t["f"].get("local"):
                n += 1
                if not any(re.search(a, f["path"]) and re.search(o, t["f"]["def"]) for a, o in judged):
                    late.append("%s in %s" % (t["f"]["def"], f["path"]))
                else:
                    cx.ob(R, k, t["f"]["def"].split("::")[-1], True, "")
    cx.ob(R, "crate", "found", n >= 1, "%d" % n)
    if late:
        raise Anchor("; ".join(late))
