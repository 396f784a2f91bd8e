"""C15 — references between entries resolve to the final positions."""
from .core import *
from . import entries as en

LEVEL = "other"
FLOOR = 150
TECHNIQUE = ("Typestate and value-flow analysis of MIR: 'every entry's cell holds its position' is a state of an entry store that only a full visit giving "
             "each entry its own index establishes and any reordering destroys; it must hold whenever columns are sized and entries written, over all "
             "stores of a pack. The cell, the handle and the deferred word are shown to be one shared cell read at the moment of use, and a word is shown to be "
             "treated as the plain number it evaluates to wherever columns are sized, compared and written")
ASSUMPTIONS = ["Arc, atomics, Vec, slice sorts and rayon's indexed iterators behave as documented (rayon joins before for_each returns)",
               "an application's own EntryTrait implementation stores the position it is given in the cell it hands out",
               "no application code keeps a Vow of its own and changes it after the store was finalised"]

# ---- the cell ------------------------------------------------------------------------------
ATOMIC = r"atomic::Atomic\w*(::<\w+>)?::%s$"


def one(cx, k, **kw):
    ts = oks(cx.traces(k, **kw))
    if len(ts) != 1:
        raise Anchor("%s: %d ways to succeed" % (k, len(ts)))
    return ts[0]


def named(t, rx):
    rx = re.compile(rx)
    return [e for e in flat(t.effs) if e.kind == "call" and rx.search(e.name)]


def sync_impls(cx):
    r = {}
    for k, f in cx.lib.fns.items():
        if f["local"] and f.get("root") and (f.get("trait") or "").endswith("::SyncType") and not f.get("closure"):
            r.setdefault(f.get("selfd") or f.get("self") or k, {})[f["name"]] = k
    return r


def r_cells(cx):
    R = "cell"
    cx.rule(R, "a handle is the very cell of the vow it was taken from; fulfilling stores the value unchanged in that cell and every later read loads it; "
               "the conversion of a position to the cell's integer and back loses nothing")
    im = sync_impls(cx)
    if len(im) < 5:
        raise Anchor("SyncType implementations: %d" % len(im))
    for ty, ms in sorted(im.items()):
        k = ms["to_self"]
        t = one(cx, k)
        ld = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::load")]
        if not ld or any(e.kind == "call" and not e.name.endswith("::load") for e in flat(t.effs)):
            raise Anchor("%s: how the cell is read" % k)
        cx.ob(R, k, "reads the cell", len(ld) == 1 and base_obj(ld[0].args[0]) is A[0] and t.val is ld[0].res, "the value read is %s" % t.val)
        k = ms["set"]
        t = one(cx, k)
        sr = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"::(store|swap)$", e.name)]
        cx.ob(R, k, "stores the value", len(sr) == 1 and base_obj(sr[0].args[0]) is A[0] and sr[0].args[1] is A[1],
              "what is stored is %s" % ([show_(e.args[1]) for e in sr] or "nothing"))
        k = ms["new"]
        t = one(cx, k)
        nw = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::new")]
        cx.ob(R, k, "new cell holds the value", t.val is A[0] or (len(nw) == 1 and nw[0].args[0] is A[0] and t.val is nw[0].res), "a new cell holds %s" % show_(t.val))
    for ty in ("Vow", "Bound"):
        k = cx.m(ty, "get")
        t = one(cx, k)
        g = named(t, r"SyncType::to_self$")
        cx.ob(R, k, "loads", len(g) == 1 and g[0].args[0] is A[0] and t.val is g[0].res, "get returns %s" % show_(t.val))
    k = cx.m("Vow", "fulfil")
    for t in oks(cx.traces(k)):
        g = named(t, r"SyncType::set$")
        cx.ob(R, k, "stores", len(g) == 1 and g[0].args[0] is A[0] and g[0].args[1] is A[1], "fulfil stores %s" % ([show_(e.args) for e in g] or "nothing"))
    k = cx.m("Vow", "bind")
    t = one(cx, k)
    cx.ob(R, k, "shares the cell", t.val is A[0], "bind returns %s: not the vow's own cell" % show_(t.val))
    # the deferred word
    k = cx.m("Word", "get")
    t = one(cx, k)
    g = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"ops::function::Fn(Mut|Once)?::call", e.name)]
    cx.ob(R, k, "evaluates", len(g) == 1 and g[0].args[0] is A[0] and t.val is g[0].res, "a word evaluates to %s" % show_(t.val))
    n = 0
    for k in cx.keys(r"delayed::Word<\w+> as core::convert::From<jubako::bases::types::delayed::Bound<"):
        if not cx.fn(k).get("root") or cx.fn(k).get("closure"):
            continue
        n += 1
        t = one(cx, k)
        v = t.val
        if not isagg(v) or v.a[0] != "closure":
            cx.ob(R, k, "deferred", not any(e.kind == "call" and e.name.endswith("to_self") for e in flat(t.effs)), "the word holds %s, read when the word is made" % show_(v))
            if cx.obs[-1].ok:
                raise Anchor("%s: what the word holds" % k)
            continue
        ups = [a for a in v.a[3:]]
        cx.ob(R, k, "captures the handle", any(u is A[0] for u in ups) and not named(t, r"to_self$"), "the word captures %s" % [show_(u) for u in ups])
        ck = v.a[1]
        t = one(cx, ck)
        g = named(t, r"SyncType::to_self$")
        into = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::into")]
        good = len(g) == 1 and g[0].args[0].op == "fld" and g[0].args[0].a[0] is A[0] and (t.val is g[0].res or (len(into) == 1 and into[0].args[0] is g[0].res and t.val is into[0].res))
        cx.ob(R, k, "evaluates the handle", good, "a word made from a handle evaluates to %s" % show_(t.val))
    if not n:
        raise Anchor("Word from Bound")
    # a position as a number
    for k in cx.keys(r"specific_types::<impl core::convert::From<jubako::bases::types::specific_types::EntryIdx> for u(32|64|size)>::from|specific_types::EntryIdx as core::convert::From<.*>::from|"
                     r"specific_types::EntryIdx::into_(base|u32|u64|usize)$"):
        if cx.fn(k).get("root"):
            t = one(cx, k)
            cx.ob(R, k, "same number", t.val is A[0], "the number of a position becomes %s" % show_(t.val))


def show_(v):
    from .. import show
    try:
        return show.show(v) if isinstance(v, T) else str([show.show(x) if isinstance(x, T) else x for x in v])
    except Exception:
        return str(v)


# ---- handles ------------------------------------------------------------------------------
def entry_impls(cx):
    """implementations of EntryTrait: type -> {method: key}"""
    r = {}
    for k, f in cx.lib.fns.items():
        if f["local"] and f.get("root") and (f.get("trait") or "").endswith("creator::directory_pack::EntryTrait") and not f.get("closure"):
            r.setdefault(k.rsplit(">::", 1)[0], {})[f["name"]] = k
    return r


def r_handle(cx):
    R = "handle"
    cx.rule(R, "setting an entry's position fulfils its own vow and its handle is bound to that same vow; an entry made with a given vow keeps it; "
               "adding an entry returns the handle of the entry that is stored")
    n = 0
    for ty, ms in entry_impls(cx).items():
        ks, kg = ms["set_idx"], ms["get_idx"]
        us = oks(cx.traces(kg))
        if "boxed::Box" in ty:
            for t in oks(cx.traces(ks)):
                fw = named(t, r"EntryTrait::set_idx$")
                cx.ob(R, ks, "forwards", len(fw) == 1 and fw[0].args[0] is A[0] and fw[0].args[1] is A[1], "set_idx forwards %s" % (show_(fw[0].args) if fw else "nothing"))
            for u in us:
                gw = named(u, r"EntryTrait::get_idx$")
                cx.ob(R, kg, "forwards", len(gw) == 1 and gw[0].args[0] is A[0] and u.val is gw[0].res, "get_idx gives %s" % show_(u.val))
            continue
        n += 1
        u = one(cx, kg)
        ts = oks(cx.traces(ks))
        t2 = ts[0]
        for t2 in ts:
            st = [e for e in flat(t2.effs) if e.kind == "call" and re.search(r"::(store|swap)$", e.name)]
            if not st and not any(e.kind == "call" and not e.name.endswith("::load") and "SyncType::set" in (e.name + (e.rdef or "")) for e in flat(t2.effs)):
                cx.ob(R, ks, "fulfils the vow", False, "set_idx stores nothing")
                continue
            if not st:
                raise Anchor("%s: how the position is kept" % ks)
            cell = st[-1].args[0]
            cx.ob(R, ks, "fulfils the vow", len(st) == 1 and st[0].args[1] is A[1], "set_idx stores %s" % show_(st[0].args[1]))
            cx.ob(R, kg, "bound to the vow", u.val is cell, "get_idx gives %s; the position is stored in %s" % (show_(u.val), show_(cell)))
    if not n:
        raise Anchor("implementation of EntryTrait")
    # constructors taking a vow
    vf = cx.field("BasicEntry", r"Vow<")
    m = 0
    for k, f in cx.lib.fns.items():
        if not (f["local"] and f.get("root") and not f.get("closure") and re.search(r"::BasicEntry::<PN, VN>::\w+", k)):
            continue
        vows = [i for i in range(f["argc"]) if "Vow<" in arg_ty(cx, f, i)]
        if len(vows) != 1:
            continue
        m += 1
        for t in oks(cx.traces(k, stop=["ValueTransformer"])):
            v = F(t.val, vf) if isagg(t.val, "BasicEntry") else None
            if v is None:
                raise Anchor("%s: what it returns" % k)
            cx.ob(R, k, "keeps the vow", v is A[vows[0]], "the entry's vow is %s, not the one it was given" % show_(v))
    if not m:
        raise Anchor("BasicEntry constructor with a vow")
    # add_entry
    k = cx.m("EntryStore", "add_entry")
    ef = cx.field("EntryStore", r"^alloc::vec::Vec<")
    for t in oks(cx.traces(k)):
        g = named(t, r"EntryTrait::get_idx$")
        p = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::push") and base_obj(e.args[0]) is F(A[0], ef)]
        if len(p) != 1:
            raise Anchor("%s: how the entry is stored" % k)
        cx.ob(R, k, "stores the entry", strip(p[0].args[1]) is A[1], "what is stored is %s" % show_(p[0].args[1]))
        cx.ob(R, k, "returns its handle", any(t.val is e.res and strip(e.args[0]) is A[1] for e in g), "the handle returned is %s" % show_(t.val))


def arg_ty(cx, f, i):
    return cx.lib.types[f["locals"][i + 1]]["s"]


def strip(v):
    """the object behind mutation marks"""
    while True:
        w = base_obj(v)
        if w is v:
            return v
        v = w


# ---- positions ----------------------------------------------------------------------------
REORDER = re.compile(r"(::|^)(par_)?(sort\w*|reverse|swap\w*|rotate\w*|push|insert|remove|retain\w*|dedup\w*|truncate|drain|append|extend\w*|split_off|pop|clear|shuffle|"
                     r"select_nth\w*|resize\w*|replace|take|fill\w*|copy_within|clone_from\w*|splice|partition\w*)$")
HARMLESS = re.compile(r"(::|^)(iter\w*|par_iter\w*|into_iter|into_par_iter|len|is_empty|windows|chunks\w*|par_chunks\w*|get\w*|first\w*|last\w*|as_\w+|index\w*|capacity|reserve\w*|shrink\w*|deref\w*|"
                      r"contains|binary_search\w*|is_sorted\w*|enumerate|zip|map|par_windows|borrow\w*|all|any|fmt|debug\w*|concat|join)$")


RESTRICTING = re.compile(r"Iterator::(skip|take|step_by|skip_while|take_while|skip_any|take_any|filter|nth)\w*$")


class At:
    def __init__(self, E, st):
        self.E, self.st = E, st


def lvmap(effs):
    r = {}
    for l in flat_loops(effs):
        r.update(l.x["init"])
    return r


class Positions:
    """the typestate of one store on one trace of a function: are all the cells equal to the index?"""

    def __init__(self, t, is_store_vec, users=()):
        self.t, self.E = t, t.E
        self.users, self.uses = users, []
        self.inits = lvmap(t.effs)
        self.is_vec = is_store_vec
        self.bad = []        # (what, effect)
        self.unknown = []
        self.last = None     # last reordering since positions were known

    def origin(self, v):
        """the object a value is a later state of"""
        seen = set()
        while v is not None and v not in seen:
            seen.add(v)
            w = base_obj(v)
            if w.op == "lv" and w in self.inits:
                w = self.inits[w]
            if w is v:
                return v
            v = w
        return v

    def vec(self, v):
        """v is (a version of) the vector of entries"""
        o = self.origin(v)
        return o is not None and self.is_vec(o)

    def elem_of(self, v, names=("idx", "elem")):
        """(sequence, index) when v is an element of a version of the vector"""
        o = self.origin(v)
        if o is not None and o.op == "idx":
            return o.a[0], o.a[1]
        if o is not None and o.op == "elem":
            return o, None
        return None

    def number(self, v, n, at):
        """strip a truncation that loses nothing"""
        while v.op == "trunc":
            bits = v.a[0]
            lim = (1 << (bits if isinstance(bits, int) else bits.a[0])) - 1
            if at.E.decide(at.st, le(n, c(lim))) is not True and at.E.decide(at.st, le(sub(n, c(1)), c(lim))) is not True:
                return None
            v = v.a[1]
        return v

    def steps(self, loop):
        """counters of a loop: lv -> start, for those advancing by one each time round"""
        r = {}
        for lv, i0 in loop.x["init"].items():
            st = [sub(it.next.get(lv, lv), lv) for it in loop.x["iters"]]
            if st and all(s is c(1) for s in st):
                r[lv] = i0
        return r

    def assigns(self, loop, after):
        """None: the loop sets no position; True: every entry gets its index; else a text saying what is wrong, or Anchor"""
        sets = [[e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("::set_idx")] for it in loop.x["iters"]]
        if not any(sets):
            return None
        # nested loops over chunks
        inner = [l for it in loop.x["iters"] for l in flat_loops(it.effs)]
        direct = [[e for e in it.effs if e.kind == "call" and e.name.endswith("::set_idx")] for it in loop.x["iters"]]
        if inner and not any(direct):
            return self.assigns_chunks(loop, after)
        if not any(direct):
            return None
        if not all(len(d) == 1 for d in direct):
            return "an iteration does not give exactly one entry a position"
        cnt = self.steps(loop)
        for it, (e,) in zip(loop.x["iters"], direct):
            el = self.elem_of(e.args[0])
            if el is None or not self.vec(el[0]):
                if any(RESTRICTING.search(x.a[0]) and contains(x, self.vec) for i0 in loop.x["init"].values() for x in walk(i0) if x.op == "call"):
                    return "not every entry is given a position"
                raise Anchor("which entry is given a position")
            seq, ix = el
            if ix is None or ix not in cnt:
                raise Anchor("which entry is given a position")
            v = visit(after, loop, seq) if not isinstance(after, tuple) else None
            if v is None:
                # the elements may be visited under a later name
                v = self.cover(loop, ix, seq, after)
            if v is None:
                raise Anchor("whether every entry is given a position")
            if v is False or (isinstance(v, tuple) and not v[0]):
                return "not every entry is given a position"
            val = self.number(e.args[1], mk_len(seq), At(self.E, it.st))
            if val is None:
                return "the position is truncated"
            diff = sub(val, ix)
            if diff is c(0):
                continue
            if val in cnt and sub(cnt[val], cnt[ix]) is c(0):
                continue
            known = all(y in cnt or y is seq for y in walk(val) if y.op == "lv")
            if not known:
                raise Anchor("the position given to an entry")
            return "an entry is given the position %s, its index is %s" % (show_(val), show_(ix))
        return True

    def cover(self, loop, ix, seq, after):
        if loop.x["init"][ix] is not c(0):
            return False if loop.x["init"][ix].op == "c" else None
        d = after.E.decide(after.st, le(mk_len(seq), ix))
        return (True,) if d else None

    def assigns_chunks(self, loop, after):
        """for (k, chunk) in entries.chunks(K).enumerate() { for (i, e) in chunk.enumerate() { e.set(k*K+i) } }"""
        src = None
        for lv, i0 in loop.x["init"].items():
            if i0.op == "call" and re.search(r"::(par_)?chunks(_exact)?(_mut)?$", i0.a[0]) and self.vec(i0.a[1][0]):
                src = (lv, i0, i0.a[1][0], i0.a[1][1])
        if src is None:
            return None        # an outer loop: its iterations are looked at one by one
        lv, call, vec, K = src
        if "exact" in call.a[0]:
            return "the entries after the last full chunk are given no position"
        cnt = self.steps(loop)
        done = after.E.decide(after.st, eq(mk("more", lv), c(0))) or any(x is mk("more", lv) and not v for x, v in after.st.facts.items())
        if not done:
            raise Anchor("whether every chunk is visited")
        for it in loop.x["iters"]:
            ls = [l for l in it.effs if l.kind == "loop"]
            if len(ls) != 1 or len(list(flat_loops(ls[0].effs if hasattr(ls[0], "effs") else []))) > 0:
                raise Anchor("nested loops giving positions")
            l = ls[0]
            c2 = self.steps(l)
            at = At(self.E, it.st)
            for i2 in l.x["iters"]:
                es = [e for e in i2.effs if e.kind == "call" and e.name.endswith("::set_idx")]
                if len(es) != 1:
                    return "an entry of a chunk is not given exactly one position"
                o = self.origin(es[0].args[0])
                if o.op != "idx" or o.a[1] not in c2:
                    raise Anchor("which entry of a chunk is given a position")
                chunk, ix = o.a
                if l.x["init"][ix] is not c(0):
                    return "not every entry of a chunk is given a position"
                if at.E.decide(at.st, le(mk_len(chunk), ix)) is not True:
                    raise Anchor("whether every entry of a chunk is visited")
                val = self.number(es[0].args[1], mk_len(vec), After(at, i2))
                if val is None:
                    val = self.unt(es[0].args[1])
                ks = [y for y, i0 in cnt.items() if i0 is c(0)]
                js = [y for y, i0 in c2.items() if i0 is c(0)]
                if any(sub(val, add(mul(k, K), j)) is c(0) for k in ks for j in js):
                    continue
                return "an entry is given the position %s: not chunk number x %s + index in the chunk" % (show_(val), show_(K))
        return True

    def appended(self, before, push):
        """the entry pushed was given the number of entries as its position"""
        obj = self.origin(push.args[1])
        for e in reversed([x for x in before if x.kind == "call" and x.name.endswith("::set_idx")]):
            if self.origin(e.args[0]) is obj:
                v = self.unt(e.args[1])
                return v.op == "len" and self.vec(v.a[0]) or v is mk_len(push.args[0])
        return False

    def unt(self, v):
        return rebuild(v, lambda x: x.a[1] if x.op == "trunc" else x)

    def run(self, effs, state, at):
        for i, e in enumerate(effs):
            if e.kind == "loop":
                r = self.assigns(e, at)
                if r is True:
                    state = True
                    continue
                if isinstance(r, str):
                    self.bad.append((r, e))
                    state = True       # reported here; do not report again at the end
                    continue
                head = state
                for _ in range(2):
                    outs = [self.run(it.effs, head, At(self.E, it.st)) for it in e.x["iters"]]
                    head = state and all(outs)
                state = head
            elif e.kind == "call":
                if e.name in self.users or (e.rdef or "") in self.users:
                    self.uses.append((state, e))
                    continue
                if e.name.endswith("::set_idx") and e.args:
                    el = self.elem_of(e.args[0])
                    if el is not None and self.vec(el[0]):
                        state, self.last = False, e
                    continue
                hit = [a for a in (e.args or ()) if isinstance(a, T) and self.vec(a)]
                if not hit:
                    continue
                if e.name.endswith("::push") and self.appended(effs[:i], e):
                    continue
                if REORDER.search(e.name):
                    state, self.last = False, e
                elif not HARMLESS.search(e.name):
                    if e.name.endswith(("::drop", "::drop_in_place")):
                        continue
                    self.unknown.append(e)
        return state


class After:
    def __init__(self, at, it):
        self.E, self.st = at.E, it.st


def store_methods(cx):
    """methods of EntryStore, inherent and of its trait: name -> (key, type of self)"""
    r = {}
    for k, f in cx.lib.fns.items():
        if f["local"] and f.get("root") and not f.get("closure") and f["argc"] >= 1 and (f.get("selfd") or "").endswith("directory_pack::entry_store::EntryStore"):
            s0 = arg_ty(cx, f, 0)
            if re.search(r"(^|[ <])jubako::creator::directory_pack::entry_store::EntryStore<", s0):
                r[f["name"]] = (k, s0)
    return r


def value_users(cx):
    """functions that read the values of entries (other than to compare them): columns are sized and entries written there"""
    r = set()
    for k, f in cx.lib.fns.items():
        if not f["local"] or f.get("closure") or f.get("name") == "compare" or (f.get("trait") or "").endswith("::EntryTrait"):
            continue
        ks = [k] + cx._closures().get(f["path"], [])
        for q in ks:
            if any(b["t"]["k"] == "call" and (b["t"]["f"].get("trait") or "").endswith("directory_pack::EntryTrait") and b["t"]["f"].get("m") == "value" for b in cx.lib.fns[q]["blocks"]):
                r.add(f["path"])
    if not r:
        raise Anchor("functions reading the values of entries")
    return r


class Stores:
    def __init__(self, cx, R):
        self.cx, self.R = cx, R
        self.ef = cx.field("EntryStore", r"^alloc::vec::Vec<")
        self.me = F(A[0], self.ef)
        self.users = value_users(cx)
        self.ms = store_methods(cx)
        self.cache = {}

    def traces(self, k):
        return self.cx.traces(k, stop=[re.compile("^" + re.escape(u) + "$") for u in self.users])

    def effect(self, name, state):
        """(state after, reorders, reads values, problems) of a method, entered in `state`"""
        if (name, state) in self.cache:
            return self.cache[(name, state)]
        k, s0 = self.ms[name]
        out, reord, reads, bad, unk = True, False, False, [], []
        if s0.startswith("&") and not s0.startswith("&mut"):
            r = state, False, False, [], []
        else:
            for t in self.traces(k):
                if t.kind != "ret":
                    continue
                p = Positions(t, lambda o: o is self.me, self.users)
                p.reorders = False
                end = p.run(t.effs, state, t)
                out = out and end
                reads = reads or bool(p.uses)
                reord = reord or any(REORDER.search(e.name) for e in flat(t.effs) if e.kind == "call" and any(isinstance(a, T) and p.vec(a) for a in e.args or ()))
                bad += [w for w, e in p.bad]
                unk += p.unknown
                for st, e in p.uses:
                      if not st:
                        bad.append("%s runs while positions are stale%s" % (short_(e.name), ", after %s" % short_(p.last.name) if p.last else ""))
                if not end and p.last is not None:
                    bad_end = "returns with stale positions, after %s" % short_(p.last.name)
                    self.why = bad_end
            r = out, reord, reads, sorted(set(bad)), unk
        self.cache[(name, state)] = r
        return r


def short_(n):
    return "::".join(n.split("::")[-2:])


def r_positions(cx):
    R = "positions"
    cx.rule(R, "after the last reordering of a store's entries every entry is given its own index as position, before any function reads the values to size columns or "
               "write entries; positions set on other occasions are undone by it")
    S = Stores(cx, R)
    late = []
    inv = True
    for n, (k, s0) in sorted(S.ms.items()):
        if (cx.fn(k).get("trait") or "").endswith("EntryStoreTrait") or not s0.startswith("&mut"):
            continue
        out, reord, reads, bad, unk = S.effect(n, True)
        for b in bad:
            cx.ob(R, k, "positions", False, b)
        if unk:
            late.append("%s on the entries" % unk[0].name)
        cx.ob(R, k, "methods analysed", True)
        inv = inv and out
    tm = {n: v for n, v in S.ms.items() if (cx.fn(v[0]).get("trait") or "").endswith("EntryStoreTrait")}
    k = cx.m("DirectoryPackCreator", "finalize")
    sf = cx.field("DirectoryPackCreator", r"^alloc::vec::Vec<.*EntryStoreTrait")
    seq = F(A[0], sf)
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret" or is_err(t):
            continue
        n += 1
        state, problems = stores_run(S, t, t.effs, inv, t, seq, tm)
        for m, b in problems:
            cx.ob(R, tm[m][0], "positions known", False, b)
        if not problems:
            cx.ob(R, k, "positions known", True)
    for m in tm:
        for st in (True, False):
            if (m, st) in S.cache and S.cache[(m, st)][4]:
                late.append("%s on the entries" % S.cache[(m, st)][4][0].name)
    cx.ob(R, k, "some store is finalized", n > 0 and any(v[2] for v in S.cache.values()), "no method reads values")
    if late:
        raise Anchor(late[0])


def stores_run(S, t, effs, state, at, seq, tm):
    problems = []
    P = Positions(t, lambda o: o is seq)

    def mcall(e):
        m = e.name.rsplit("::", 1)[1]
        if m in tm and "EntryStoreTrait" in (e.name + (e.rdef or "")):
            return m
        return None

    def go(effs, state, at):
        for e in effs:
            if e.kind == "loop":
                inner = [[mcall(x) for x in it.effs if x.kind == "call" and mcall(x)] for it in e.x["iters"]]
                head = state
                outs = []
                for _ in range(2):
                    outs = [go(it.effs, head, At(t.E, it.st)) for it in e.x["iters"]]
                    if not any(inner) and any(True for it in e.x["iters"] for l in flat_loops(it.effs)):
                        head = head and all(outs)
                if any(inner):
                    # a loop over the stores: each store goes through the body once
                    v = visit(at, e, seq, P.origin)
                    if v and v[0]:
                        state = all(outs)
                    elif v is None and not all(outs):
                        state = False
                    elif v is None:
                        raise Anchor("whether every store is visited")
                    else:
                        state = state and all(outs)
                else:
                    state = head and all(outs) if outs else head
            elif e.kind == "call" and mcall(e):
                m = mcall(e)
                out, reord, reads, bad, unk = S.effect(m, state)
                for b in bad:
                    if (m, b) not in problems:
                        problems.append((m, b))
                state = out
        return state
    state = go(effs, state, at)
    return state, problems


def r_stores(cx):
    R = "all stores first"
    cx.rule(R, "no store of a pack has its values read (columns sized, entries written) before every store of the pack is in its final order: a property may "
               "refer to an entry of any store")
    S = Stores(cx, R)
    tm = {n: v for n, v in S.ms.items() if (cx.fn(v[0]).get("trait") or "").endswith("EntryStoreTrait")}
    k = cx.m("DirectoryPackCreator", "finalize")
    eff = {m: S.effect(m, True) for m in tm}
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret" or is_err(t):
            continue
        n += 1
        order = []

        def go(effs):
            for e in effs:
                if e.kind == "loop":
                    for _ in range(2):
                        for it in e.x["iters"]:
                            go(it.effs)
                elif e.kind == "call":
                    m = e.name.rsplit("::", 1)[1]
                    if m in tm and "EntryStoreTrait" in (e.name + (e.rdef or "")):
                        order.append((m, e))
        go(t.effs)
        read = None
        bad = None
        for m, e in order:
            if read and eff[m][1]:
                bad = (m, read)
            if eff[m][2]:
                read = m
        cx.ob(R, k, "final order before values are read", bad is None, bad and "%s may reorder a store after %s read the values of another" % bad)
    cx.ob(R, k, "stores are finalized", n > 0 and any(e[2] for e in eff.values()), "no method reads values")
    # once finalised, nothing gives positions any more
    w = cx.m("FinalizedDirectoryPackCreator", "write")
    setters = []
    for q in cx.reach([w]):
        f = cx.lib.fns[q]
        for b in f["blocks"]:
            if b["t"]["k"] == "call" and ((b["t"]["f"].get("trait") or "").endswith("directory_pack::EntryTrait") and b["t"]["f"].get("m") == "set_idx"):
                setters.append(q)
    cx.ob(R, w, "positions do not change while writing", not setters, "positions are given in %s" % setters)


def shared(fn, name):
    return lambda cx: fn(cx, name)


RULES = [("cell", r_cells), ("handle", r_handle), ("positions", r_positions), ("all stores first", r_stores)] + \
        [(n, shared(f, n)) for n, f in (("columns cover words", en.r_widths), ("words written", en.r_entry), ("constant columns", en.r_constant), ("columns sized from every entry", en.r_process),
                                        ("properties of an entry", en.r_keys))]
