"""Abstract interpretation of MIR over the term domain (trace-partitioned, loops widened).

For an entry point it yields the finite set of abstract traces: ordered effects
(external calls, lock operations, loops), the facts under which a trace is taken and
the returned value, all as terms over the entry point's parameters.  Crate-local
callees (and std's Option/Result/`?` plumbing) are inlined; everything else is an
uninterpreted effect.  Loops are widened: whatever a generic iteration changes becomes
a fresh symbol, and one generic iteration is recorded.
"""
import heapq, re
from .term import *

TRANSPARENT_PTR = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
                   "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit",
                   "core::mem::maybe_dangling::MaybeDangling", "core::num::niche_types::NonZeroUsizeInner")




LAZY = re.compile(r"Iterator::(skip|take|step_by|chain|fuse|peekable|cloned|copied|rev|cycle|zip|enumerate|array_chunks|with_min_len|with_max_len|skip_any|take_any|interleave)$")


class Limit(Exception):
    pass


class Eff:
    __slots__ = ("kind", "name", "args", "res", "fn", "span", "x", "rdef", "full", "facts")

    def __init__(self, kind, name, args=(), res=None, fn=None, span=None, x=None, rdef=None, full=None):
        self.kind, self.name, self.args, self.res = kind, name, tuple(args), res
        self.fn, self.span, self.x, self.rdef, self.full = fn, span, x, rdef, full
        self.facts = None

    def key(self):
        return (self.kind, self.name, self.args, self.res)

    def __repr__(self):
        if self.kind == "loop":
            return "LOOP %s {%s}" % (self.name, " || ".join("; ".join(map(repr, it.effs)) for it in self.x["iters"]))
        return "%s %s(%s)" % (self.kind, short(self.name), ", ".join(show(a) for a in self.args)) + (
            " -> %s" % show(self.res) if self.res is not None and self.kind == "call" else "")


class Iter:
    """one generic loop iteration (up to the back edge)"""

    def __init__(self, effs, facts):
        self.effs, self.facts = effs, facts


class St:
    __slots__ = ("mem", "facts", "bnd", "effs", "cnt", "fid", "hid")

    def __init__(self):
        self.mem, self.facts, self.bnd, self.effs, self.cnt = {}, {}, {}, None, {}
        self.fid = 0
        self.hid = 0

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.bnd = dict(self.bnd)
        s.effs = self.effs
        s.cnt = dict(self.cnt)
        s.fid = self.fid
        s.hid = self.hid
        return s

    def emit(self, e):
        self.effs = (self.effs, e)

    def efflist(self, upto=None):
        r = []
        x = self.effs
        while x is not None and x is not upto:
            r.append(x[1])
            x = x[0]
        r.reverse()
        return r

    def occ(self, key):
        n = self.cnt.get(key, 0)
        self.cnt[key] = n + 1
        return n


class Trace:
    def __init__(self, kind, st, val, why=None):
        self.kind, self.effs, self.facts, self.bnd, self.val, self.why = kind, st.efflist(), st.facts, st.bnd, val, why
        self.mem = st.mem
        self.st = st

    def calls(self, pat=None, deep=True):
        for e in flat(self.effs, deep):
            if e.kind == "call" and (pat is None or match(e, pat)):
                yield e

    def __repr__(self):
        f = ["%s=%s" % (show(k), v) for k, v in self.facts.items()]
        for k, (lo, hi, ex) in self.bnd.items():
            f.append("%s<=%s<=%s%s" % (lo, show(k), hi, " !%s" % sorted(ex) if ex else ""))
        return "TRACE %s%s\n   when %s\n   %s\n   => %s" % (
            self.kind, " (%s)" % self.why if self.why else "", " & ".join(f) or "-",
            "\n   ".join(map(repr, self.effs)) or "-",
            show(self.val) if self.val is not None else None)


def flat(effs, deep=True):
    for e in effs:
        yield e
        if deep and e.kind == "loop":
            for it in e.x["iters"]:
                yield from flat(it.effs)


def match(e, pat):
    """pat: suffix of the name or of the resolved name, or a compiled regex"""
    if hasattr(pat, "search"):
        return bool(pat.search(e.name) or (e.rdef and pat.search(e.rdef)))
    return e.name == pat or e.name.endswith("::" + pat) or (e.rdef is not None and (e.rdef == pat or e.rdef.endswith("::" + pat)))


# pure external functions: equal arguments give equal results, and nothing happens
PURE = re.compile(r"::(len|is_empty|cmp|partial_cmp|eq|ne|as_ref|as_bytes|as_str|to_string|from_le_bytes|from_be_bytes|"
                  r"to_le_bytes|to_be_bytes|as_slice|as_ptr|deref|borrow|as_path|leading_zeros|trailing_zeros|count_ones|"
                  r"get_unchecked|first|last|capacity|starts_with|ends_with|extension|parent|join|to_owned|to_vec|"
                  r"checked_add|checked_sub|checked_mul|saturating_sub|saturating_add|saturating_mul|"
                  r"pow|ilog2|div_ceil|is_power_of_two|from_utf8_lossy|into_boxed_slice|into_iter|iter|"
                  r"as_u64|as_usize|get|contains_key|contains|is_file|exists|hash|default|from_raw_parts|to_path_buf)$")
IMPURE_GET = re.compile(r"cell::|atomic|OnceLock|LazyLock|RefCell|once_lock|lru|JoinHandle|join_handle|mpsc|spmc")

DEREF_LIKE = re.compile(
    r"(Deref::deref|DerefMut::deref_mut|AsRef::as_ref|AsMut::as_mut|Borrow::borrow|BorrowMut::borrow_mut|ToOwned::to_owned)$"
    r"|::(as_slice|as_mut_slice|as_mut|into_boxed_slice|as_bytes|as_str|into_bytes|to_vec|into_vec|by_ref|as_path|as_ptr|as_mut_ptr|into_owned|get_mut|leak|into_string|as_mut_str|assume_init|from_raw|into_raw|as_inner)$"
    r"|^alloc::rcs::(arc|rc)::(Arc|Rc)::<T>::new$|^alloc::boxed::Box::<T>::(new|pin)$|^core::hint::(must_use|black_box)$"
    r"|^core::cell::Cell::<T>::new$|Cell::<T>::get_mut$|^core::pin::Pin")


class Engine:
    def __init__(self, crate, stop=(), models=None, max_depth=14, max_steps=400000, max_traces=6000,
                 only=None, keep_drops=False, asserts=False, paths=False):
        self.c = crate
        self.types = crate.types
        self.dmax = {}  # discriminant term -> largest discriminant of its enum
        self.stop = [re.compile(s) if isinstance(s, str) else s for s in stop]
        self.only = [re.compile(s) for s in only] if only is not None else None
        self.models = models or {}
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.max_traces = max_traces
        self.steps = 0
        self.keep_drops = keep_drops
        self.asserts = asserts
        self.paths = paths          # keep paths apart that differ by what they know only
        self.cfg = {}
        self.newtypes = set()
        self.analysed = set()
        self.opaque = set()
        for n, a in crate.adts.items():
            if a["kind"] == "struct" and len(a["variants"]) == 1:
                fs = [f for f in a["variants"][0]["fields"] if not f[1].startswith("core::marker::PhantomData")]
                if len(fs) == 1 and (a["local"]):
                    self.newtypes.add(n)
        for n in TRANSPARENT_PTR:
            self.newtypes.add(n)
        for n in ("core::cell::Cell", "core::cell::UnsafeCell", "core::num::wrapping::Wrapping"):
            self.newtypes.add(n)

    # ---- CFG ------------------------------------------------------------------
    def cfg_of(self, fn):
        k = fn["key"]
        if k in self.cfg:
            return self.cfg[k]
        bl = fn["blocks"]
        n = len(bl)

        def succ(i):
            t = bl[i]["t"]
            k2 = t["k"]
            if k2 == "goto":
                return [t["t"]]
            if k2 == "switch":
                return [x[1] for x in t["ts"]] + [t["o"]]
            if k2 in ("drop", "assert"):
                return [t["t"]]
            if k2 == "call":
                return [t["t"]] if t["t"] is not None else []
            return []

        S = [succ(i) for i in range(n)]
        # DFS postorder
        order, seen = [], set()
        stack = [(0, iter(S[0]))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(S[w])))
                    break
            else:
                order.append(v)
                stack.pop()
        rpo = {v: i for i, v in enumerate(reversed(order))}
        preds = {v: [] for v in seen}
        for v in seen:
            for w in S[v]:
                preds[w].append(v)
        # dominators
        rl = list(reversed(order))
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in rl[1:]:
                ps = [p for p in preds[v] if p in dom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        while rpo[a] > rpo[b]:
                            a = dom[a]
                        while rpo[b] > rpo[a]:
                            b = dom[b]
                    d = a
                if dom.get(v) != d:
                    dom[v] = d
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]

        loops = {}
        for v in seen:
            for w in S[v]:
                if dominates(w, v):
                    body = loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        r = dict(succ=S, rpo=rpo, loops=loops, dom=dom)
        self.cfg[k] = r
        return r

    # ---- types ------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def adt_fields(self, d, vi):
        a = self.c.adts.get(d)
        if a is None or vi >= len(a["variants"]):
            return None
        v = a["variants"][vi]
        return v["name"] if a["kind"] == "enum" else None, [f[0] for f in v["fields"]]

    def is_signed(self, tid):
        return self.ty(tid)["k"] == "int"

    def int_bits(self, tid):
        t = self.ty(tid)
        if t["k"] in ("int", "uint"):
            return t["bits"]
        if t["k"] == "bool":
            return 1
        if t["k"] == "char":
            return 32
        return None

    # ---- memory -----------------------------------------------------------------
    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "S" or root[0] == "K":
            return root[1]
        return mk("undef")

    def read(self, st, root, path):
        v = self.root_val(st, root)
        for i, k in enumerate(path):
            if v.op == "ref" and isinstance(k, str):
                v = self.read(st, v.a[0], v.a[1])
            v = self.proj(v, k)
        return v

    def proj(self, v, k):
        if isinstance(k, str):
            return fld(v, k)
        if k[0] == "i":
            return self.index(v, k[1])
        if k[0] == "pl":
            return self.payload(v, k[1], k[2])
        if k[0] == "slice":
            return mk_slice(v, k[1], k[2])
        return mk("prj", v, str(k))

    def payload(self, v, variant, f):
        if v.op == "agg":
            r = agg_get(v, f)
            return r if r is not None else mk("pl", v, variant, f)
        if v.op == "upd":
            if v.a[1] == ("pl", variant, f):
                return v.a[2]
            return self.payload(v.a[0], variant, f)
        return mk("pl", v, variant, f)

    def index(self, v, i):
        if v.op == "agg" and v.a[0] == "[]" and i.op == "c":
            r = agg_get(v, str(i.a[0]))
            if r is not None:
                return r
        if v.op == "repeat":
            return v.a[0]
        if v.op == "slice":
            return self.index(v.a[0], add(v.a[1], i))
        if v.op == "push" and i is mk_len(v.a[0]):
            return v.a[1]
        if v.op == "push" and i.op == "c" and mk_len(v.a[0]).op == "c" and i.a[0] < mk_len(v.a[0]).a[0]:
            return self.index(v.a[0], i)
        if v.op == "bytes" and i.op == "c" and i.a[0] < len(v.a[0]):
            return c(v.a[0][i.a[0]])
        if v.op == "upd" and isinstance(v.a[1], tuple) and v.a[1][0] == "i":
            if v.a[1][1] is i:
                return v.a[2]
            if v.a[1][1].op == "c" and i.op == "c":
                return self.index(v.a[0], i)
        return mk("idx", v, i)

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        # redirect through references stored in the middle of the path
        v = self.root_val(st, root)
        for j, k in enumerate(path):
            if v.op == "ref" and isinstance(k, str):
                return self.write(st, v.a[0], v.a[1] + path[j:], val)
            v = self.proj(v, k)

        def go(base, p):
            if not p:
                return val
            k = p[0]
            if isinstance(k, tuple) and k[0] == "slice" and k[1].op == "c" and k[1].a[0] == 0 and k[2] is mk_len(base):
                return go(base, p[1:])
            return upd_any(base, k, go(self.proj(base, k), p[1:]))

        st.mem[root] = go(self.root_val(st, root), path)

    def deref_loc(self, st, v):
        """location a pointer value points to"""
        if v.op == "ref":
            return v.a[0], v.a[1]
        return ("S", v), ()

    def resolve(self, st, v, depth=0, memo=None):
        if memo is None:
            memo = {}
        if v in memo:
            return memo[v]
        if not contains_ref(v):
            if v.op != "ref" and ("S", v) in st.mem and depth < 8:
                return self.resolve(st, st.mem[("S", v)], depth + 1, memo)
            return v
        if depth > 8:
            return v

        def f(x):
            if x.op == "ref":
                y = self.read(st, x.a[0], x.a[1])
                if y is x:
                    return x
                return self.resolve(st, y, depth + 1, memo)
            return x

        r = rebuild(v, f)
        memo[v] = r
        return r

    # ---- operands -----------------------------------------------------------------
    def place_loc(self, fn, fid, st, p):
        """-> root, path, type id of the place"""
        l, prs = p
        root, path = ("L", fid, l), ()
        tid = fn["locals"][l]
        variant = None
        for e in prs:
            k = e[0]
            t = self.ty(tid) if tid is not None else {"k": "?"}
            if k == "*":
                v = self.read(st, root, path)
                root, path = self.deref_loc(st, v)
                tid = t.get("e") if t["k"] in ("ref", "ptr") else (t["a"][0] if t["k"] == "adt" and t["a"] else None)
                variant = None
            elif k == "f":
                idx = e[1]
                if t["k"] == "adt":
                    d = t["d"]
                    if d in self.newtypes and self.c.adts[d]["kind"] == "struct" if d in self.c.adts else d in self.newtypes:
                        pass
                    else:
                        r = self.adt_fields(d, variant or 0)
                        name = r[1][idx] if r and idx < len(r[1]) else str(idx)
                        if r and r[0] is not None:
                            path = path + (("pl", r[0], name),)
                        else:
                            path = path + (name,)
                elif t["k"] == "closure":
                    path = path + ("up%d" % idx,)
                else:
                    path = path + (str(idx),)
                tid = e[2]
                variant = None
            elif k == "dc":
                variant = e[1]
            elif k == "i":
                iv = st.mem.get(("L", fid, e[1]), mk("undef"))
                path = path + (("i", iv),)
                tid = t.get("e")
            elif k == "ci":
                if e[3]:
                    base = self.read(st, root, path)
                    path = path + (("i", sub(mk_len(base), c(e[1]))),)
                else:
                    path = path + (("i", c(e[1])),)
                tid = t.get("e")
            elif k == "sub":
                base = self.read(st, root, path)
                end = sub(mk_len(base), c(e[2])) if e[3] else c(e[2])
                path = path + (("slice", c(e[1]), end),)
            else:
                path = path + (("?",),)
        return root, path, tid

    def const(self, st, k):
        t = self.ty(k["t"])
        if "promoted" in k["v"]:
            return self.promoted(k["v"]["promoted"])
        v = self.cv(k["v"], t, k)
        return v

    def promoted(self, key):
        fn = self.c.fns[key]
        s = St()
        s.fid = -1
        outs = self.region(fn, -1, s, 0, None, 0)
        for o in outs:
            if o[0] == "ret":
                return self.deref_full(o[1], self.resolve(o[1], o[1].mem.get(("L", -1, 0), UNIT)))
        raise Limit("promoted constant " + key)

    def cv(self, v, t, k=None):
        if "int" in v:
            n = int(v["int"])
            if t["k"] == "int":
                b = t["bits"]
                if n >> (b - 1):
                    n -= 1 << b
            return c(n)
        if "bytes" in v:
            return mk("bytes", tuple(v["bytes"]))
        if "fn" in v:
            return mk("fn", v["fn"], v["full"])
        if "ref" in v:
            it = self.ty(t["e"]) if "e" in t else {"k": "?"}
            return self.cv(v["ref"], it, None)
        if "agg" in v:
            fs = v["agg"]
            if t["k"] == "adt":
                d = t["d"]
                vi = v.get("v", 0)
                r = self.adt_fields(d, vi)
                names = r[1] if r else [str(i) for i in range(len(fs))]
                # field types unknown here: ints keep their bits
                vals = [self.cv(x, {"k": "?"}) for x in fs]
                if d in self.newtypes and len(vals) >= 1:
                    return vals[0]
                return agg(d, r[0] if r else None, names[: len(vals)], vals)
            if t["k"] == "array":
                et = self.ty(t["e"])
                vals = [self.cv(x, et) for x in fs]
                return agg("[]", None, [str(i) for i in range(len(vals))], vals)
            ets = [self.ty(x) for x in t.get("a", [])] if t["k"] == "tuple" else []
            vals = [self.cv(x, ets[i] if i < len(ets) else {"k": "?"}) for i, x in enumerate(fs)]
            return agg("()", None, [str(i) for i in range(len(vals))], vals)
        if "static" in v:
            return mk("static", v["static"])
        if k is not None and "name" in k:
            return mk("const", k["name"])
        if k is not None and "tyc" in k:
            return mk("const", k["tyc"])
        if v.get("zst"):
            return UNIT
        if t["k"] == "tuple" and not t.get("a"):
            return UNIT
        return mk("const", str(v.get("opaque", v)) + ":" + t.get("s", "?"))

    def operand(self, fn, fid, st, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            root, path, tid = self.place_loc(fn, fid, st, p)
            return self.read(st, root, path)
        if "k" in o:
            return self.const(st, o["k"])
        return FALSE

    def op_ty(self, fn, o):
        if "k" in o:
            return o["k"]["t"]
        p = o.get("c") or o.get("m")
        if p is None:
            return None
        return self.place_ty(fn, p)

    def place_ty(self, fn, p):
        tid = fn["locals"][p[0]]
        for e in p[1]:
            t = self.ty(tid) if tid is not None else {"k": "?"}
            if e[0] == "*":
                tid = t.get("e") if t["k"] in ("ref", "ptr") else (t["a"][0] if t["k"] == "adt" and t["a"] else None)
            elif e[0] == "f":
                tid = e[2]
            elif e[0] in ("i", "ci"):
                tid = t.get("e")
        return tid

    # ---- rvalues --------------------------------------------------------------------
    def binop(self, op, a, b, tid):
        t = self.ty(tid) if tid is not None else {"k": "?"}
        isint = t["k"] in ("int", "uint", "bool", "char")
        op = op.replace("Unchecked", "")
        ov = False
        if op.endswith("WithOverflow"):
            ov = True
            op = op[:-12]
        if op == "Add":
            r = add(a, b)
        elif op == "Sub":
            r = sub(a, b)
        elif op == "Mul":
            r = mul(a, b)
        elif op == "Div":
            r = div(a, b) if t["k"] == "uint" else mk("div", a, b)
        elif op == "Rem":
            r = rem(a, b) if t["k"] == "uint" else mk("rem", a, b)
        elif op == "Shl":
            r = shl(a, b)
            # bits shifted out are lost
            w = self.int_bits(tid) if tid is not None else None
            if w and not fits(r, w):
                r = trunc(w, r, t["k"] == "int")
        elif op == "Shr":
            r = shr(a, b) if t["k"] == "uint" else mk("sar", a, b)
        elif op == "BitAnd":
            r = band(a, b)
        elif op == "BitOr":
            r = join_bytes(a, b) or bor(a, b)
        elif op == "BitXor":
            r = bxor(a, b)
            if t["k"] == "bool" and b.op == "c":
                r = not_(a) if b.a[0] else a
        elif op in ("Eq", "Ne"):
            r = eq(a, b) if isint else gen_eq(a, b)
            if t["k"] == "bool" and (a.op == "c" or b.op == "c"):
                x, k = (a, b) if b.op == "c" else (b, a)
                r = x if k.a[0] else not_(x)
            if op == "Ne":
                r = not_(r)
        elif op == "Lt":
            r = lt(a, b)
        elif op == "Le":
            r = le(a, b)
        elif op == "Gt":
            r = lt(b, a)
        elif op == "Ge":
            r = le(b, a)
        elif op == "Cmp":
            r = mk("cmp", a, b)
        else:
            r = mk("bin" + op, a, b)
        if ov:
            return tup(r, mk("ov", r))
        return r

    def rvalue(self, fn, fid, st, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fn, fid, st, rv[1])
        if k == "ref":
            root, path, tid = self.place_loc(fn, fid, st, rv[2])
            v = self.read(st, root, path)
            if root[0] == "S" and not path and root not in st.mem:
                return root[1]
            if root[0] == "K":
                return v
            return mk("ref", root, path, bool(rv[1]))
        if k == "bin":
            a = self.operand(fn, fid, st, rv[2])
            b = self.operand(fn, fid, st, rv[3])
            return self.binop(rv[1], a, b, self.op_ty(fn, rv[2]))
        if k == "un":
            a = self.operand(fn, fid, st, rv[2])
            if rv[1] == "Not":
                t = self.ty(self.op_ty(fn, rv[2]))
                if t["k"] == "bool":
                    return not_(a)
                if t["k"] == "uint":
                    return sub(c((1 << t["bits"]) - 1), a)
                return mk("bnot", a)
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                return mk_len(self.resolve(st, a))
            return mk("un" + rv[1], a)
        if k == "cast":
            a = self.operand(fn, fid, st, rv[2])
            kind = rv[1]
            if kind.startswith("IntToInt"):
                src, dst = self.op_ty(fn, rv[2]), rv[3]
                return self.intcast(a, src, dst)
            if kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFnPointer"):
                return a
            if kind.startswith("Transmute"):
                s, d = self.ty(self.op_ty(fn, rv[2])), self.ty(rv[3])
                if s["k"] in ("int", "uint") and d["k"] in ("int", "uint"):
                    return self.intcast(a, self.op_ty(fn, rv[2]), rv[3])
                if s["k"] in ("int", "uint") and d["k"] == "adt" and d["d"] == OPT:     # NonZero::new
                    a = self.resolve(st, a)
                    z = self.decide(st, eq(a, c(0)))
                    return NONE if z is True else some(a) if z is False else mk("call", "nonzero", (a,), 0)
                return a
            if "Float" in kind:
                return mk("fcast", a, self.ty(rv[3])["s"])
            return a
        if k == "discr":
            root, path, tid = self.place_loc(fn, fid, st, rv[1])
            v = self.read(st, root, path)
            return self.discr(st, v, tid)
        if k == "agg":
            ops = [self.operand(fn, fid, st, o) for o in rv[2]]
            a = rv[1]
            if a["k"] == "adt":
                d = a["d"]
                if d in self.newtypes and ops:
                    return ops[0]
                r = self.adt_fields(d, a["v"])
                names = r[1] if r else [str(i) for i in range(len(ops))]
                if "uf" in a:
                    names = [names[a["uf"]]]
                v = agg(d, r[0] if r else None, names[: len(ops)], ops)
                return self.eta(v)
            if a["k"] == "closure":
                return mk("agg", "closure", a["key"], tuple("up%d" % i for i in range(len(ops))), *ops)
            if a["k"] == "array":
                return agg("[]", None, [str(i) for i in range(len(ops))], ops)
            if a["k"] == "rawptr":
                return ops[0]
            return agg("()", None, [str(i) for i in range(len(ops))], ops)
        if k == "repeat":
            n = rv[2]
            v = self.operand(fn, fid, st, rv[1])
            return mk("repeat", v, c(n) if n is not None else mk("const", "N"))
        if k == "tls":
            return mk("static", rv[1])
        return mk("rv", str(k))

    def eta(self, v):
        ks = v.a[2]
        if not ks:
            return v
        b = None
        for k, x in agg_items(v):
            if x.op != "fld" or x.a[1] != k:
                return v
            if b is None:
                b = x.a[0]
            elif b is not x.a[0]:
                return v
        if v.a[1] is not None:
            return v
        a = self.c.adts.get(v.a[0])
        if a and len(a["variants"][0]["fields"]) == len(ks) and a["local"]:
            # only safe when the symbolic base has that very type; fields agree by name
            return mk("eta", v.a[0], b) if False else v
        return v

    def intcast(self, a, src, dst):
        sb, db = self.int_bits(src) if src is not None else None, self.int_bits(dst)
        st_ = self.ty(src) if src is not None else {"k": "?"}
        dt = self.ty(dst)
        ssig, dsig = st_["k"] == "int", dt["k"] == "int"
        if a.op == "c":
            return trunc(db, a, dsig)
        if sb is None:
            if st_["k"] == "adt":
                return a
            return a
        if a.op == "discr":
            return a
        if not ssig and not dsig:
            return a if db >= sb else trunc(db, a)
        if ssig and dsig:
            return a if db >= sb else trunc(db, a, True)
        if not ssig and dsig:
            return a if db > sb else mk("sext", db, a)
        return mk("u", db, a) if db >= sb else trunc(db, a)

    def discr(self, st, v, tid):
        v = self.deref_full(st, v)
        if v.op == "agg":
            a = self.c.adts.get(v.a[0])
            if v.a[0] in (OPT, RES):
                return c(["None", "Some"].index(v.a[1]) if v.a[0] == OPT else ["Ok", "Err"].index(v.a[1]))
            if a:
                for i, vv in enumerate(a["variants"]):
                    if vv["name"] == v.a[1]:
                        return c(vv["discr"] if vv["discr"] is not None else i)
        if v.op == "cmp" and v.a[0].op == "c" and v.a[1].op == "c":
            x, y = v.a[0].a[0], v.a[1].a[0]
            return c(-1 if x < y else (0 if x == y else 1))
        if v.op == "c":
            return v
        r = mk("discr", v)
        if r not in self.dmax and tid is not None:
            t = self.ty(tid)
            if t["k"] == "adt":
                a = self.c.adts.get(t["d"])
                if t["d"] in (OPT, RES):
                    self.dmax[r] = 1
                elif a and a["kind"] == "enum" and a["variants"]:
                    ds = [x["discr"] if x["discr"] is not None else i for i, x in enumerate(a["variants"])]
                    if min(ds) >= 0:
                        self.dmax[r] = max(ds)
        return r

    def deref_full(self, st, v):
        n = 0
        while v.op == "ref" and n < 8:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    # ---- facts ------------------------------------------------------------------------
    def decide(self, st, cond):
        """True / False / None"""
        if cond.op == "c":
            return bool(cond.a[0])
        if cond.op == "not":
            r = self.decide(st, cond.a[0])
            return None if r is None else not r
        if cond in st.facts:
            return bool(st.facts[cond])
        if cond.op in ("pos", "eq0"):
            k, d = lin_parts(cond.a[0])
            vp = lin_make(0, d)
            lo, hi, ex = self.bounds(st, vp)
            if cond.op == "pos":  # vp > -k
                if lo is not None and lo > -k:
                    return True
                if hi is not None and hi <= -k:
                    return False
            else:
                if lo is not None and hi is not None and lo == hi == -k:
                    return True
                if (lo is not None and -k < lo) or (hi is not None and -k > hi) or -k in ex:
                    return False
        if cond.op == "eq":
            comps = self.eq_comps(cond)
            if comps:
                r = [self.decide(st, x) for x in comps]
                if any(x is False for x in r):
                    return False
                if all(x is True for x in r):
                    return True
        return None

    def eq_comps(self, cond):
        """component equalities equivalent to (or, for a slice against a literal, implied by) a structural equality"""
        a, b = cond.a
        if a.op != "agg" or (b.op == "agg" and b.a[0] != "[]" and False):
            a, b = b, a
        if a.op != "agg":
            return None

        def ce(x, y):
            return eq(x, y) if "c" in (x.op, y.op) or x.op in ("lin", "dec", "idx") or y.op in ("lin", "dec", "idx") else gen_eq(x, y)
        if b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2]:
            return [ce(agg_get(a, k), agg_get(b, k)) for k in a.a[2]]
        if b.op == "slice" and a.a[0] == "[]":
            its = agg_items(a)
            if sub(b.a[2], b.a[1]) is c(len(its)):
                return [ce(mk("idx", b.a[0], add(b.a[1], c(i))), v) for i, (_, v) in enumerate(its)]
        return None

    def bounds(self, st, vp):
        lo, hi, ex = self.bounds0(st, vp)
        if vp.op == "discr" and vp in self.dmax:
            return self.tight(0 if lo is None else max(lo, 0), self.dmax[vp] if hi is None else min(hi, self.dmax[vp]), ex)
        return lo, hi, ex

    def bounds0(self, st, vp):
        r = st.bnd.get(vp)
        if r is None:
            lo = 0 if nonneg(vp) else None
            hi = upper(vp)
            if vp.op in ("max", "min"):
                ks = [x.a[0] for x in vp.a if isinstance(x, T) and x.op == "c"]
                if ks and vp.op == "max":
                    lo = max(ks)
                elif ks:
                    hi = min(ks)
            n = neg(vp)
            if n in st.bnd:
                l2, h2, e2 = st.bnd[n]
                if h2 is not None:
                    lo = -h2 if lo is None else max(lo, -h2)
                hi = -l2 if l2 is not None else hi
                return lo, hi, frozenset(-x for x in e2)
            return lo, hi, frozenset()
        return r

    def assume(self, st, cond, val):
        """records; returns False when contradictory"""
        d = self.decide(st, cond)
        if d is not None:
            return d == val
        if cond.op == "not":
            return self.assume(st, cond.a[0], not val)
        if cond.op in ("pos", "eq0"):
            k, dd = lin_parts(cond.a[0])
            vp = lin_make(0, dd)
            if neg(vp) in st.bnd and vp not in st.bnd:
                vp = neg(vp)
                cc = pos(sub(neg(c(0)), c(0)))
                if cond.op == "pos":
                    # -vp + k > 0  <=> vp < k  <=> vp <= k-1
                    lo, hi, ex = self.bounds(st, vp)
                    if val:
                        hi = k - 1 if hi is None else min(hi, k - 1)
                    else:
                        lo = k if lo is None else max(lo, k)
                else:
                    lo, hi, ex = self.bounds(st, vp)
                    if val:
                        lo = hi = k
                    else:
                        ex = ex | {k}
                st.bnd[vp] = self.tight(lo, hi, ex)
                return True
            lo, hi, ex = self.bounds(st, vp)
            if cond.op == "pos":
                if val:
                    lo = 1 - k if lo is None else max(lo, 1 - k)
                else:
                    hi = -k if hi is None else min(hi, -k)
            else:
                if val:
                    lo = hi = -k
                else:
                    ex = ex | {-k}
            st.bnd[vp] = self.tight(lo, hi, ex)
            return True
        st.facts[cond] = 1 if val else 0
        if val and cond.op == "eq":
            for x in self.eq_comps(cond) or ():
                if not self.assume(st, x, True):
                    return False
        return True

    def tight(self, lo, hi, ex):
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        return lo, hi, frozenset(x for x in ex if (lo is None or x >= lo) and (hi is None or x <= hi))

    # ---- execution --------------------------------------------------------------------
    def analyse(self, key, args=None, st=None, names=None):
        """traces of the function with symbolic arguments"""
        fn = self.c.fns[key]
        st = st or St()
        if args is None:
            nm = {}
            for n, p in fn["names"]:
                if not p[1] and 1 <= p[0] <= fn["argc"]:
                    nm[p[0]] = n
            args = [sym(nm.get(i + 1, "arg%d" % i)) for i in range(fn["argc"])]
            if names:
                for i, n in enumerate(names):
                    args[i] = sym(n)
        self.steps = 0
        outs = self.call_body(fn, args, st, 0)
        r = []
        for kind, s, v, why in outs:
            r.append(Trace(kind, s, self.resolve(s, v) if v is not None else None, why))
        return r

    def call_body(self, fn, args, st, depth):
        self.analysed.add(fn["key"])
        st.fid += 1
        fid = st.fid
        if fn.get("spread") is not None and False:
            pass
        if fn.get("spread") is not None:
            # rust-call ABI: last argument is a tuple spread over the remaining parameters
            pass
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        outs = self.region(fn, fid, st, 0, None, depth)
        r = []
        for o in outs:
            s = o[1]
            if o[0] == "ret":
                v = s.mem.get(("L", fid, 0), UNIT)
                if v.op == "undef":
                    v = UNIT
                self.kill_frame(s, fid)
                r.append(("ret", s, v, None))
            elif o[0] == "panic":
                self.kill_frame(s, fid)
                r.append(("panic", s, None, o[2]))
            else:
                raise Limit("unexpected outcome %s" % o[0])
        return r if self.paths else self.merge_outs(r)

    def kill_frame(self, s, fid):
        for k in [k for k in s.mem if k[0] == "L" and k[1] == fid]:
            del s.mem[k]

    def merge_outs(self, outs):
        res, idx = [], {}
        for o in outs:
            kind, s, v, why = o
            sig = (kind, v, why, s.effs if s.effs is None else id(s.effs), tuple(sorted(((str(k), x.id) for k, x in s.mem.items()))))
            if sig in idx:
                self.join_facts(idx[sig][1], s)
            else:
                idx[sig] = o
                res.append(o)
        return res

    def join_facts(self, a, b):
        for k in list(a.facts):
            if b.facts.get(k) != a.facts[k]:
                del a.facts[k]
        for k in list(a.bnd):
            if b.bnd.get(k) != a.bnd[k]:
                la, ha, ea = a.bnd[k]
                lb, hb, eb = self.bounds(b, k)
                lo = None if la is None or lb is None else min(la, lb)
                hi = None if ha is None or hb is None else max(ha, hb)
                ex = ea & eb
                if lo is None and hi is None and not ex:
                    del a.bnd[k]
                else:
                    a.bnd[k] = (lo, hi, ex)
        for k, n in b.cnt.items():
            if a.cnt.get(k, 0) < n:
                a.cnt[k] = n
        a.fid = max(a.fid, b.fid)
        a.hid = max(a.hid, b.hid)

    def region(self, fn, fid, st, start, loop, depth, enter_header=False):
        """explore from block `start`. loop=(header, body) when exploring one iteration."""
        cfg = self.cfg_of(fn)
        rpo = cfg["rpo"]
        heap = []
        pend = {}
        outs = []

        def push(b, s):
            if loop is not None:
                if b == loop[0]:
                    outs.append(("back", s))
                    return
                if b not in loop[1]:
                    outs.append(("exit", s, b))
                    return
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (rpo.get(b, 1 << 30), b))
            pend[b].append(s)

        first = True
        if loop is not None and start == loop[0]:
            pend[start] = [st]
            heap.append((rpo[start], start))
        else:
            push(start, st)
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            if len(sts) > 1 and not self.paths:
                sts = self.join_states(sts)
            is_header = b in cfg["loops"] and not (loop is not None and b == loop[0])
            for s in sts:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit("step limit in %s" % fn["key"])
                if is_header:
                    for o in self.do_loop(fn, fid, s, b, cfg["loops"][b], depth):
                        if o[0] == "exit":
                            push(o[2], o[1])
                        else:
                            outs.append(o)
                    continue
                for o in self.block(fn, fid, s, b, depth):
                    if o[0] == "go":
                        push(o[2], o[1])
                    else:
                        outs.append(o)
            if len(outs) > self.max_traces:
                raise Limit("trace limit in %s" % fn["key"])
        return outs

    def join_states(self, sts):
        res, idx = [], {}
        for s in sts:
            sig = (id(s.effs), frozenset((k, v.id) for k, v in s.mem.items()))
            if sig in idx:
                self.join_facts(idx[sig], s)
            else:
                idx[sig] = s
                res.append(s)
        if len(res) > self.max_traces:
            raise Limit("too many states")
        return res

    # generic widening loop. explore(st) -> outs with ("back", st), ("exit", st, x), ret/panic
    def widen_loop(self, st, name, explore, span=None, fnname=None):
        base = st
        widened = {}  # (root, path) -> sym
        n = st.occ(("loop", name))
        lname = "%s#%d" % (name, n) if n else name
        lname = "L%d" % st.occ(("loopid",))
        for it in range(8):
            s0 = base.fork()
            for (root, path), sy in widened.items():
                self.write(s0, root, path, sy)
            mark = s0.effs
            facts0 = dict(s0.facts)
            start_mem = dict(s0.mem)
            outs = explore(s0)
            new = {}
            for o in outs:
                if o[0] == "back":
                    self.diff(start_mem, o[1].mem, widened, new)
            new = {l: 1 for l in new if not any(w[0] == l[0] and w[1] == l[1][: len(w[1])] for w in widened)}
            if not new:
                break
            for loc in new:
                # subsume children
                for w in list(widened):
                    if w[0] == loc[0] and w[1][: len(loc[1])] == loc[1]:
                        del widened[w]
                widened[loc] = mk("lv", lname, loc_name(loc))
        else:
            raise Limit("loop does not stabilise: %s (%s)" % (name, ", ".join(map(loc_name, new))))
        iters, res = [], []
        initv = {}
        for (root, path), sy in widened.items():
            initv[sy] = self.resolve(base, self.read(base, root, path))
        whole = {}  # loop variable -> the whole iterator it is part of, before the loop
        for (root, path), sy in widened.items():
            for n in range(len(path) + 1):
                v = self.read(base, root, path[:n])
                if v.op == "agg" and str(v.a[0]).startswith("it:"):
                    whole[sy] = self.resolve(base, v)
                    break
        backs = []
        for o in outs:
            if o[0] == "back":
                s = o[1]
                nf = {k: v for k, v in s.facts.items() if facts0.get(k) != v}
                nxt = {sy: self.resolve(s, self.read(s, root, path)) for (root, path), sy in widened.items()}
                i = Iter(s.efflist(mark), nf)
                i.bnd = {k: v for k, v in s.bnd.items() if base.bnd.get(k) != v}
                i.next = nxt
                i.st = s
                iters.append(i)
        e = Eff("loop", lname, (), None, fnname, span, dict(iters=iters, init=initv, lname=lname, whole=whole))
        for o in outs:
            if o[0] == "back":
                continue
            s = o[1]
            suffix = s.efflist(mark)
            has_eff = any(i.effs for i in iters) or initv
            s.effs = mark
            if has_eff:
                s.emit(e)
            for x in suffix:
                s.emit(x)
            res.append(o)
        return res

    def diff(self, m0, m1, widened, new):
        for root, v0 in m0.items():
            v1 = m1.get(root)
            if v1 is None or v1 is v0:
                continue
            self.diffv(root, (), v0, v1, new)
        for root, v1 in m1.items():
            if root not in m0 and root[0] == "S":
                if root[1] is not v1:
                    self.diffv(root, (), root[1], v1, new)
        # frame locals freshly created inside the iteration are dead at the back edge

    def diffv(self, root, path, v0, v1, new):
        if v0 is v1:
            return
        if v0.op == "undef":
            new[(root, path)] = 1
            return
        if v0.op == "agg" and v1.op == "agg" and v0.a[:3] == v1.a[:3] and v0.a[1] is None:
            for k in v0.a[2]:
                kk = k
                if v0.a[0] == "[]":
                    kk = ("i", c(int(k)))
                self.diffv(root, path + (kk,), agg_get(v0, k), agg_get(v1, k), new)
            return
        if v1.op == "upd" or v0.op == "upd":
            ch0, b0 = upd_chain(v0)
            ch1, b1 = upd_chain(v1)
            if b0 is b1:
                for k in set(ch0) | set(ch1):
                    x0 = ch0.get(k) or self.proj(b0, k)
                    x1 = ch1.get(k) or self.proj(b1, k)
                    self.diffv(root, path + (k,), x0, x1, new)
                return
        new[(root, path)] = 1

    def do_loop(self, fn, fid, st, header, body, depth):
        live_before = {k for k in st.mem}

        def explore(s):
            outs = self.region(fn, fid, s, header, (header, body), depth)
            for o in outs:
                if o[0] == "back":
                    # locals assigned before the loop keep; temporaries created inside stay out of the diff
                    pass
            return outs

        return self.widen_loop(st, fn["path"], explore, fn["span"], fn["path"])

    # ---- blocks -------------------------------------------------------------------------
    def block(self, fn, fid, st, b, depth):
        bl = fn["blocks"][b]
        for s in bl["s"]:
            if s[0] == "=":
                root, path, tid = self.place_loc(fn, fid, st, s[1])
                v = self.rvalue(fn, fid, st, s[2], tid)
                self.write(st, root, path, v)
            elif s[0] == "dead":
                st.mem.pop(("L", fid, s[1]), None)
            elif s[0] == "sd":
                root, path, tid = self.place_loc(fn, fid, st, s[1])
                r = self.adt_fields(self.ty(tid)["d"], s[2])
                v = self.read(st, root, path)
                items = [(k[2], x) for k, x in upd_chain(v)[0].items() if isinstance(k, tuple) and k[0] == "pl"]
                self.write(st, root, path, agg(self.ty(tid)["d"], r[0], [k for k, _ in items], [x for _, x in items]))
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [("go", st, t["t"])]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume", "abort", "other"):
            return []
        if k == "drop":
            return self.do_drop(fn, fid, st, t, depth)
        if k == "assert":
            cond = self.operand(fn, fid, st, t["c"])
            ops = [self.resolve(st, self.operand(fn, fid, st, o)) for o in t["ops"]]
            if self.asserts:
                st.emit(Eff("assert", t["m"], ops, None, fn["path"], t["sp"]))
            if t["m"] == "bounds" and len(ops) == 2:
                self.assume(st, lt(ops[1], ops[0]), True)
            elif cond.op == "c" and bool(cond.a[0]) != t["e"]:
                return [("panic", st, "assert " + t["m"])]
            return [("go", st, t["t"])]
        if k == "switch":
            return self.do_switch(fn, fid, st, t)
        if k == "call":
            r = []
            for kind, s, v, why in self.do_call(fn, fid, st, t, depth):
                if kind == "ret":
                    if t["t"] is None:
                        r.append(("panic", s, why or t["f"].get("rdef") or "diverge"))
                        continue
                    root, path, tid = self.place_loc(fn, fid, s, t["d"])
                    self.write(s, root, path, v)
                    r.append(("go", s, t["t"]))
                else:
                    r.append(("panic", s, why))
            return r
        raise Limit("terminator " + k)

    def do_drop(self, fn, fid, st, t, depth):
        ty = self.ty(t["ty"])
        if self.keep_drops or "Guard" in ty["s"]:
            root, path, tid = self.place_loc(fn, fid, st, t["p"])
            v = self.read(st, root, path)
            if v.op != "undef":
                st.emit(Eff("drop", ty["s"], (self.resolve(st, v),), None, fn["path"], t["sp"], x=v))
        return [("go", st, t["t"])]

    def do_switch(self, fn, fid, st, t):
        v = self.operand(fn, fid, st, t["d"])
        dt = self.ty(t["dt"])
        v = self.resolve(st, v)
        targets = []
        for x, b in t["ts"]:
            n = int(x)
            if dt["k"] == "int" and n >> (dt["bits"] - 1) and v.op != "discr":
                n -= 1 << dt["bits"]
            targets.append((n, b))
        if v.op == "c":
            for n, b in targets:
                if n == v.a[0] or (v.a[0] < 0 and n == v.a[0] % (1 << 64)) or (v.a[0] < 0 and n == v.a[0] % 256):
                    return [("go", st, b)]
            return [("go", st, t["o"])]
        if dt["k"] == "bool":
            res = []
            d = self.decide(st, v)
            for val, b in ((0, targets[0][1]), (1, t["o"])) if targets and targets[0][0] == 0 else ((1, targets[0][1]), (0, t["o"])):
                if d is not None and d != bool(val):
                    continue
                s = st.fork() if d is None else st
                if d is None and not self.assume(s, v, bool(val)):
                    continue
                res.append(("go", s, b))
            return res
        # integer / discriminant
        res = []
        ov = v
        if v.op == "discr" and v.a[0].op == "cmp":
            # Ordering of two terms: -1 / 0 / 1
            a, b2 = v.a[0].a
            rest = {-1, 0, 1}
            for n, b in targets:
                n = n if n < 128 else n - 256
                rest.discard(n)
                s = st.fork()
                if self.assume_cmp(s, a, b2, n):
                    res.append(("go", s, b))
            for n in sorted(rest):
                s = st.fork()
                if self.assume_cmp(s, a, b2, n):
                    res.append(("go", s, t["o"]))
            return res
        taken = []
        for n, b in targets:
            cond = eq(v, c(n))
            d = self.decide(st, cond)
            if d is False:
                continue
            s = st.fork()
            if not self.assume(s, cond, True):
                continue
            res.append(("go", s, b))
            if d is True:
                return res
        s = st.fork()
        for n, b in targets:
            if not self.assume(s, eq(v, c(n)), False):
                return res
        ob = fn["blocks"][t["o"]]
        if ob["t"]["k"] == "unreachable" and not ob["s"]:
            return res
        res.append(("go", s, t["o"]))
        return res

    def assume_cmp(self, s, a, b, n):
        if n == -1:
            return self.assume(s, lt(a, b), True)
        if n == 1:
            return self.assume(s, lt(b, a), True)
        return self.assume(s, eq(a, b), True) and self.assume(s, lt(a, b), False)

    # ---- calls ----------------------------------------------------------------------------
    def is_stop(self, f):
        nm = callee_name(f)
        rd = f.get("rdef", "")
        full = f.get("full", "")
        for p in self.stop:
            if p.search(nm) or p.search(rd) or p.search(full):
                return True
        return False

    def do_call(self, fn, fid, st, t, depth):
        f = t["f"]
        args = [self.operand(fn, fid, st, a) for a in t["a"]]
        ctx = dict(fn=fn, t=t, depth=depth, f=f, span=t["sp"], at=t["at"], dty=t["dty"])
        if f["kind"] == "indirect":
            callee = self.deref_full(st, self.operand(fn, fid, st, f["op"]))
            return self.call_value(st, callee, args, ctx)
        return self.dispatch(st, f, args, ctx)

    def call_value(self, st, callee, args, ctx):
        """call a closure / fn item value with positional args"""
        callee = self.deref_full(st, callee)
        depth = ctx["depth"]
        if callee.op == "agg" and callee.a[0] == "closure":
            key = callee.a[1]
            body = self.c.fns.get(key)
            if body is not None and depth < self.max_depth:
                # closure self argument: by ref or by value
                hid = ("H", st.hid)
                st.hid += 1
                st.mem[hid] = callee
                selft = self.ty(body["locals"][1])
                sv = callee if selft["k"] == "closure" else mk("ref", hid, (), True)
                a = [sv] + list(args)
                # closures take their parameters spread
                if body["argc"] != len(a):
                    a = a[: body["argc"]] + [mk("undef")] * (body["argc"] - len(a))
                return self.call_body(body, a, st, depth + 1)
        if callee.op == "fn":
            key = None
            for k in self.c.by_path.get(callee.a[0], []):
                if key is None or k.startswith(callee.a[1]):
                    key = k
            f = dict(**{"def": callee.a[0]}, rdef=callee.a[0], full=callee.a[1], kind="item", local=key is not None, ga=[])
            if key:
                f["key"] = key
            # enum / struct constructors used as functions
            ctor = self.ctor(callee.a[0], args)
            if ctor is not None:
                return [("ret", st, ctor, None)]
            c2 = dict(ctx)
            c2["f"] = f
            c2["at"] = [None] * len(args)
            return self.dispatch(st, f, list(args), c2)
        return self.opaque_call(st, "call_value", [callee] + list(args), ctx)

    def ctor(self, path, args):
        if path.endswith("::{constructor#0}"):
            path = path[: -len("::{constructor#0}")]
        if "::" not in path:
            return None
        a = self.c.adts.get(path)
        if a and a["kind"] == "struct":
            if path in self.newtypes:
                return args[0]
            return agg(path, None, [f[0] for f in a["variants"][0]["fields"]], args)
        p, v = path.rsplit("::", 1)
        a = self.c.adts.get(p)
        if a and a["kind"] == "enum":
            for vv in a["variants"]:
                if vv["name"] == v:
                    return agg(p, v, [f[0] for f in vv["fields"]], args)
        if path in ("core::option::Option::Some", "core::option::Option::<T>::Some"):
            return some(args[0])
        if path.startswith("core::result::Result::") and path.endswith("Ok"):
            return ok(args[0])
        if path.startswith("core::result::Result::") and path.endswith("Err"):
            return err(args[0])
        return None

    def dispatch(self, st, f, args, ctx):
        from . import models

        name = callee_name(f)
        # rule-supplied models first
        for pat, h in self.models.items():
            if re.search(pat, name) or re.search(pat, f.get("rdef", "")):
                r = h(self, st, name, args, ctx)
                if r is not None:
                    return r
        if self.is_stop(f):
            return self.opaque_call(st, name, args, ctx)
        # closure calls through Fn traits
        if name in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
            cal = self.deref_full(st, args[0])
            tupv = self.deref_full(st, args[1]) if len(args) > 1 else UNIT
            if cal.op in ("agg", "fn") and tupv.op == "agg":
                return self.call_value(st, cal, list(tupv.a[3:]), ctx)
            return self.opaque_call(st, name, args, ctx)
        key = f.get("key")
        if key and key in self.c.fns and (f.get("local") or not models.prefer_model(name, f)):
            if ctx["depth"] < self.max_depth and not self.recursing(ctx, key):
                body = self.c.fns[key]
                if self.only is None or not f.get("local") or any(p.search(name) or p.search(f.get("rdef", "")) for p in self.only):
                    a = list(args)
                    if body.get("spread") is not None:
                        pass
                    c2 = self.stack_push(ctx, key)
                    return self.inline(body, a, st, c2)
        r = models.apply(self, st, name, f, args, ctx)
        if r is not None:
            return r
        return self.opaque_call(st, name, args, ctx)

    _stack = ()

    def recursing(self, ctx, key):
        return self._stack.count(key) >= 2

    def stack_push(self, ctx, key):
        c2 = dict(ctx)
        c2["key"] = key
        return c2

    def inline(self, body, args, st, ctx):
        old = self._stack
        self._stack = old + (body["key"],)
        try:
            return self.call_body(body, args, st, ctx["depth"] + 1)
        finally:
            self._stack = old

    def has_mut(self, st, v, tid=None):
        """mutable locations reachable through the argument"""
        res = []
        for x in walk(v):
            if x.op == "ref" and x.a[2]:
                res.append((x.a[0], x.a[1]))
        return res

    def opaque_call(self, st, name, args, ctx, pure=None, extra=None):
        f = ctx["f"]
        rargs = [self.resolve(st, a) for a in args]
        self.opaque.add(name)
        if pure is None:
            pure = bool(PURE.search(name)) and not IMPURE_GET.search(name) and not f.get("local")
        muts = []
        at = ctx.get("at") or []
        for i, a in enumerate(args):
            for loc in self.has_mut(st, a):
                muts.append(loc)
            if a.op != "ref" and i < len(at) and at[i] is not None:
                ty = self.ty(at[i])
                if ty["k"] == "ref" and ty["m"]:
                    muts.append((("S", a), ()))
        if pure and not muts:
            res = mk("call", name, tuple(rargs), 0)
            return [("ret", st, res, None)]
        k = st.occ((name, tuple(rargs)))
        res = mk("call", name, tuple(rargs), k)
        dty = self.ty(ctx["dty"])
        if dty["k"] == "tuple" and not dty.get("a"):
            rv = UNIT
        elif dty["k"] == "never":
            st.emit(Eff("call", name, rargs, res, ctx["fn"]["path"], ctx["span"], rdef=f.get("rdef"), full=f.get("full")))
            return [("panic", st, None, name)]
        else:
            rv = res
        e = Eff("call", name, rargs, res, ctx["fn"]["path"], ctx["span"], rdef=f.get("rdef"), full=f.get("full"), x=dict(raw=tuple(args), extra=extra, dty=dty))
        e.facts = (st.facts.copy(), st.bnd.copy()) if self.asserts else None
        st.emit(e)
        if LAZY.search(name):
            muts = []          # only builds an adaptor
        for root, path in dict.fromkeys(muts):
            old = self.read(st, root, path)
            if old.op == "agg" and old.a[0] == "closure":
                continue
            self.write(st, root, path, mk("hv", self.resolve(st, old), name, k))
        # closures handed to an unknown callee may run any number of times
        if extra != "noclosure":
            for a in args:
                a2 = self.deref_full(st, a)
                for x in walk_held(a2):
                    if x.op == "agg" and x.a[0] == "closure":
                        return self.closure_may_run(st, x, rv, name, ctx)
        return [("ret", st, rv, None)]

    def closure_may_run(self, st, clo, rv, name, ctx):
        body = self.c.fns.get(clo.a[1])
        if body is None or ctx["depth"] >= self.max_depth:
            return [("ret", st, rv, None)]
        n = body["argc"] - 1
        nth = st.occ(("carg", name))

        def explore(s):
            outs = [("exit", s.fork(), None)]
            args = [mk("carg", name, i, nth) for i in range(n)]
            for kind, s2, v, why in self.call_value(s, clo, args, ctx):
                if kind == "ret":
                    s2.emit(Eff("cret", name, (v,) if v is not None else ()))
                    outs.append(("back", s2))
                else:
                    outs.append(("panic", s2, why))
            return outs

        res = []
        for o in self.widen_loop(st, name, explore, ctx["span"], ctx["fn"]["path"]):
            if o[0] == "exit":
                res.append(("ret", o[1], rv, None))
            else:
                res.append(("panic", o[1], None, o[2]))
        return res


def callee_name(f):
    if f.get("trait") and f.get("m"):
        return f["trait"] + "::" + f["m"]
    return f.get("rdef") or f.get("def") or "?"


def walk_held(v):
    """subterms a callee can still call: closures consumed by a finished collect are gone"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen or x.op == "collect":
            continue
        seen.add(x)
        yield x
        todo.extend(kids(x))


def contains_ref(v):
    return any(x.op == "ref" for x in walk(v))


def upd_any(base, k, v):
    if isinstance(k, str):
        return upd(base, k, v)
    if k[0] == "pl" and base.op == "agg" and k[2] in base.a[2]:
        return upd(base, k[2], v)
    if k[0] == "i" and base.op == "agg" and base.a[0] == "[]" and k[1].op == "c" and str(k[1].a[0]) in base.a[2]:
        return upd(base, str(k[1].a[0]), v)
    if base.op == "upd" and base.a[1] == k:
        return upd_any(base.a[0], k, v)
    return mk("upd", base, k, v)


def upd_chain(v):
    d = {}
    while v.op == "upd":
        d.setdefault(v.a[1], v.a[2])
        v = v.a[0]
    return d, v


def loc_name(loc):
    root, path = loc
    r = "%s%s" % (root[0], show(root[1]) if root[0] == "S" else "_".join(map(str, root[1:])))
    return r + "".join("." + (show(p[1]) if isinstance(p, tuple) and len(p) > 1 and isinstance(p[1], T) else str(p)) for p in path)


def mk_len(v):
    if v.op == "bytes":
        return c(len(v.a[0]))
    if v.op == "agg" and v.a[0] == "[]":
        return c(len(v.a[2]))
    if v.op == "repeat":
        return v.a[1]
    if v.op == "slice":
        return sub(v.a[2], v.a[1])
    if v.op == "vec":
        return c(0)
    if v.op == "push":
        return add(mk_len(v.a[0]), c(1))
    if v.op == "enc":
        return v.a[0]
    if v.op == "encp":
        return mk_len(v.a[0])
    if v.op == "upd" and isinstance(v.a[1], tuple) and v.a[1][0] == "i":
        return mk_len(v.a[0])
    if v.op in ("call", "pure") and v.a[0] == "core::slice::raw::from_raw_parts":
        return v.a[1][1]
    return mk("len", v)


def mk_slice(v, a, b):
    if v.op == "slice":
        return mk_slice(v.a[0], add(v.a[1], a), add(v.a[1], b))
    if a.op == "c" and a.a[0] == 0 and b is mk_len(v):
        return v
    if v.op == "encp" and a.op == "c" and a.a[0] == 0 and b is v.a[1].a[0]:
        return v.a[1]
    if v.op == "enc" and v.a[1] == "le" and a.op == "c" and a.a[0] == 0:
        return mk("enc", b, "le", v.a[2])
    return mk("slice", v, a, b)


def byte_run(v):
    """(sequence, first index, count, shift) of consecutive bytes, least significant first, shifted left"""
    sh = 0
    while v.op in ("trunc", "ext"):
        v = v.a[1]
    k, m = lin_parts(v)
    if v.op == "lin" and k == 0 and len(m) == 1:
        (v, f), = m.items()
        if f <= 0 or f & (f - 1) or (f.bit_length() - 1) % 8:
            return None
        sh = (f.bit_length() - 1) // 8
    while v.op == "ext":
        v = v.a[1]
    if v.op == "idx":
        return v.a[0], v.a[1], 1, sh
    if v.op == "dec" and v.a[1] == "le" and not v.a[2] and v.a[0].op == "c" and v.a[3].op == "slice":
        return v.a[3].a[0], v.a[3].a[1], v.a[0].a[0], sh
    return None


def join_bytes(a, b):
    """bytes put together by `low | high << 8 * n`: the integer decoded from them"""
    x, y = byte_run(a), byte_run(b)
    if x is None or y is None or x[0] is not y[0]:
        return None
    if x[3] > y[3]:
        x, y = y, x
    n = x[2] + y[2]
    if x[3] != 0 or y[3] != x[2] or add(x[1], c(x[2])) is not y[1] or n > 8:
        return None
    return mk("dec", c(n), "le", False, mk_slice(x[0], x[1], add(x[1], c(n))))


def nonneg(v):
    if v.op in ("len", "and", "trunc", "shr"):
        return True
    return False


MACHINE = (1 << 64) - 1  # no integer of the code base is wider than 64 bits


def upper(v):
    if v.op == "and" and v.a[1].op == "c":
        return v.a[1].a[0]
    if v.op == "trunc":
        return (1 << v.a[0]) - 1
    if v.op in ("sym", "fld", "call", "pl", "len", "idx", "discr", "fresh", "hv"):
        return MACHINE
    return None


def fits(t, bits):
    """does the term obviously fit the width (no information lost by a shift)?"""
    u = ub(t)
    return u is not None and u < (1 << bits)


def ub(t):
    if t.op == "c":
        return t.a[0]
    if t.op in ("and", "trunc"):
        return upper(t)
    if t.op == "lin":
        s = t.a[0]
        for x, v in t.a[1]:
            b = ub(x)
            if v < 0 or b is None:
                return None
            s += v * b
        return s
    return None
