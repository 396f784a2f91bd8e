"""Entries: columns sized for the values, entries written with the column's layout, layouts described on disk and read back (shared by C02, C03, C14, C15)."""
from .core import *
from .wire import *
from .layout import adt, ev, cval

SCH, LAY = "creator::directory_pack::schema", "creator::directory_pack::layout"


def variants(cx, name, mod):
    return {v["name"]: (v["discr"] if v["discr"] is not None else i, {f[0]: f[1] for f in v["fields"]}) for i, v in enumerate(adt(cx, name, mod)["variants"])}


def discr(v):
    if isagg(v):
        return None
    return mk("discr", v)


def which(t, obj, vs):
    """variant of obj the trace is in, or None"""
    if isagg(obj):
        return obj.a[1]
    lo = [n for n, (i, _) in vs.items() if t.E.decide(t.st, eq(mk("discr", obj), c(i))) is not False]
    return lo[0] if len(lo) == 1 else None


def pl(v, *vf):
    for x, f in zip(vf[::2], vf[1::2]):
        if isagg(v) and v.a[1] == x:
            v = agg_get(v, f)
        else:
            n = fld(v, ("pl", x, f)) if v.op == "upd" else None
            v = n if n is not None and not (n.op == "fld" and n.a[1] == ("pl", x, f)) else mk("pl", base_pl(v, x, f), x, f)
    return v


def base_pl(v, x, f):
    while v.op == "upd" and v.a[1] != ("pl", x, f):
        v = v.a[0]
    return v


VAL = sym("VALUE")


def norm(v):
    """entry values as VALUE, however the entry hands them out; a deferred word as the number it evaluates to"""
    def f(x):
        if x.op == "pl" and x.a[1] in ("Owned", "Borrowed") and x.a[0].op in ("call", "hv") and "EntryTrait::value" in str(x.a[0].a[0]):
            return VAL
        if x.op == "call" and x.a[0].endswith("EntryTrait::value"):
            return x
        if x.op == "call" and re.search(r"ops::function::Fn(Mut|Once)?::call", str(x.a[0])):
            return mk("word", x.a[1][0])
        return x
    return rebuild(v, f)


def value_of(x):
    """(kind, rest) when x reads the payload of the entry's value"""
    return [y.a[1] for y in walk(x) if y.op == "pl" and y.a[0] is VAL]


def valcalls(effs):
    return [e for e in flat(effs) if e.kind == "call" and e.name.endswith("directory_pack::EntryTrait::value")]


def kind_of(cx, t, vals):
    """variant of the entry's value on this trace"""
    for e in vals:
        r = e.res
        for o in ("Owned", "Borrowed"):
            x = mk("pl", r, o, "0")
            n = [k for k, (i, _) in vals_vs(cx).items() if t.E.decide(t.st, eq(mk("discr", x), c(i))) is True]
            if n:
                return n[0]
    return None


def vals_vs(cx):
    if not hasattr(cx, "_vals"):
        cx._vals = variants(cx, "Value", "creator::directory_pack")
    return cx._vals


# ---- evaluation of a sizing term ------------------------------------------------------------
def evs(t, env, bits=64):
    o = t.op
    if t in env:
        return env[t]
    if o == "c":
        return t.a[0]
    if o == "bnot":
        v = evs(t.a[0], env)
        return None if v is None else ~v
    if o in ("min", "max"):
        xs = [evs(x, env) for x in t.a]
        return None if any(x is None for x in xs) else (min if o == "min" else max)(xs)
    if o in ("call", "pure") and isinstance(t.a[1], tuple):
        m = re.search(r"<impl i(\d+)>::(saturating_mul|saturating_add|saturating_sub|abs|saturating_abs|unsigned_abs|wrapping_abs|wrapping_mul|wrapping_neg|saturating_neg)$", str(t.a[0]))
        xs = [evs(x, env) for x in t.a[1] if isinstance(x, T)]
        if not m or any(x is None for x in xs):
            return None
        w, n = int(m.group(1)), m.group(2)
        r = {"mul": lambda: xs[0] * xs[1], "add": lambda: xs[0] + xs[1], "sub": lambda: xs[0] - xs[1], "abs": lambda: abs(xs[0]), "neg": lambda: -xs[0]}[n.rsplit("_", 1)[-1]]()
        lo, hi = -(1 << w - 1), (1 << w - 1) - 1
        if n.startswith("saturating"):
            return max(lo, min(hi, r))
        if n == "unsigned_abs":
            return r
        return (r - lo) % (1 << w) + lo
    if o == "lin":
        k, m = lin_parts(t)
        r = k
        for x, n in m.items():
            v = evs(x, env)
            if v is None:
                return None
            r += n * v
        return r
    if o == "u":
        v = evs(t.a[1], env)
        return None if v is None else v & (1 << t.a[0]) - 1
    if o in ("trunc", "sext"):
        v = evs(t.a[1], env)
        if v is None:
            return None
        v &= (1 << t.a[0]) - 1
        return v - (1 << t.a[0]) if o == "sext" and v >> (t.a[0] - 1) else v
    if o in ("mul", "and", "or", "xor", "shl", "shr", "sar"):
        xs = [evs(x, env) for x in t.a if isinstance(x, T)]
        if any(x is None for x in xs) or len(xs) != 2:
            return None
        a, b = xs
        return {"mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b if b < 65 else 0, "shr": lambda: a >> b if b < 65 else 0, "sar": lambda: a >> min(b, 64)}[o]()
    return None


def ubytes(n):
    return None if n < 0 else max(1, (n.bit_length() + 7) // 8)


def sbytes(n):
    n = n if n >= 0 else -n - 1
    return n.bit_length() // 8 + 1


def samples(signed, bits):
    r = set()
    if signed:
        for k in range(0, bits):
            for d in (-1, 0, 1):
                r |= {(1 << k) + d, -(1 << k) + d}
        return sorted(x for x in r if -(1 << bits - 1) <= x < 1 << bits - 1)
    for k in range(0, bits + 1):
        for d in (-1, 0, 1):
            r.add((1 << k) + d)
    return sorted(x for x in r if 0 <= x < 1 << bits)


def consistent(bnds, facts, env):
    for x, (lo, hi, ex) in bnds.items():
        v = evs(x, env)
        if v is None:
            continue
        if lo is not None and v < lo or hi is not None and hi < (1 << 63) and v > hi or v in (ex or ()):
            return False
    return True


def range_of(bnd, x):
    """(lowest, highest) value of x by the bounds, whichever way round its difference is written"""
    k, m = lin_parts(x)
    lo = hi = None
    for z, (l, h, ex) in bnd.items():
        kz, mz = lin_parts(z)
        if h is not None and h >= 1 << 63:
            h = None
        for s in (1, -1):
            if m and {y: s * n for y, n in mz.items()} == m:
                a, b = (l, h) if s == 1 else (None if h is None else -h, None if l is None else -l)
                d = k - s * kz
                if a is not None:
                    lo = a + d if lo is None else max(lo, a + d)
                if b is not None:
                    hi = b + d if hi is None else min(hi, b + d)
    return lo, hi


# ---- W1: columns cover the values of every entry ----------------------------------------------
NB = re.compile(r"bases::needed_bytes$")


class Columns:
    """what Property::process and Property::finalize of a schema do"""

    def __init__(self, cx):
        self.cx = cx
        self.vs = variants(cx, "Property", SCH)
        self.ls = variants(cx, "Property", LAY)
        self.ps = variants(cx, "PropertySize", SCH)
        self.vc = variants(cx, "ValueCounter", SCH)
        self.kp = [k for k in cx.keys(r"creator::directory_pack::schema::property::Property::<\w+>::process") if not cx.fn(k).get("closure") and cx.fn(k).get("root")][0]
        self.kf = cx.m("Property", "finalize")
        if "schema" not in self.kf:
            raise Anchor("schema Property::finalize")

    def slots(self, V, ty):
        return [f for f, s in self.vs[V][1].items() if ty + "<" in s]

    def process(self):
        """[(V, kind, trace)]"""
        if not hasattr(self, "_p"):
            r = []
            for V, (i, _) in self.vs.items():
                if not self.slots(V, "PropertySize") and not self.slots(V, "ValueCounter"):
                    continue
                for t in self.cx.traces(self.kp, stop=[NB], assume=[(eq(mk("discr", A[0]), c(i)), True)], paths=True):
                    if t.kind != "ret":
                        continue
                    vc = valcalls(t.effs)
                    if not vc:
                        raise Anchor("%s: a path that reads no value" % self.kp)
                    r.append((V, kind_of(self.cx, t, vc), t, vc))
            self._p = r
        return self._p

    def after(self, t, V, f):
        o = final(t, A[0])
        return pl(o, V, f)

    def size_terms(self, V, f, kind):
        """[(trace, term the slot is made to cover | None when it covers nothing)] for an automatic slot"""
        r = []
        old = mk("pl", A[0], V, f)
        for V2, k2, t, vc in self.process():
            if V2 != V or k2 != kind:
                continue
            w = which(t, old, self.ps)
            if w == "Fixed":
                # guarded: needed_bytes(v) <= size on every path that returns
                g = [x for x in list(t.bnd) + list(t.facts) if any(y.op == "call" and NB.search(y.a[0]) for y in walk(x))]
                ns = {y for x in g for y in walk(x) if y.op == "call" and NB.search(y.a[0])}
                r.append((t, "fixed", [y.a[1][0] for y in ns if t.E.decide(t.st, le(y, mk("discr", pl(old, "Fixed", "0")))) is True or t.E.decide(t.st, le(y, pl(old, "Fixed", "0"))) is True]))
                continue
            new = self.after(t, V, f)
            m0 = mk("pl", old, "Auto", "0")
            m1 = pl(new, "Auto", "0")
            if m1 is m0:
                # unchanged: then every value is known to be below
                r.append((t, "auto", [x for x in self.bounded(t, m0)]))
                continue
            parts = list(m1.a) if m1.op == "max" else [m1]
            if m0 not in parts and t.E.decide(t.st, le(m0, m1)) is not True:
                r.append((t, "forgets", m1))
                continue
            r.append((t, "auto", [p for p in parts if p is not m0] + self.bounded(t, m1)))
        return r

    def bounded(self, t, m):
        """values the trace knows to be at most m"""
        c_ = set()
        for x in list(t.bnd) + list(t.facts):
            for y in walk(x):
                if value_of(norm(y)) and y.op in ("pl", "fld", "call", "trunc", "sext", "bnot", "lin", "pure"):
                    c_.add(y)
        return [y for y in c_ if t.E.decide(t.st, le(y, m)) is True]


def r_widths(cx, R):
    cx.rule(R, "a column's width is the number of bytes of the largest value any entry has in it: every value written in an entry with the column's width was counted when the "
               "column was sized (and counted for its sign too when it is signed)")
    C = Columns(cx)
    # slots -> layout
    lay = layouts(cx, C, R)
    W = writes(cx)
    n = 0
    late = []
    for V, (kind, wpath, w, signed, bits, where) in [(V, x) for V, l in sorted(W.items()) for x in l]:
        slot = lay.get(V, {}).get(wpath)
        if slot is None:
            if V in C.vs and wpath is not None and wpath not in KEYW:
                raise Anchor("where the width %s of %s comes from" % (wpath, V))
            continue
        st = C.size_terms(V, slot, kind)
        if not st:
            cx.ob(R, C.kp, "%s.%s sized for %s" % (V, slot, kind), False, "no path of process counts a value of kind %s" % kind)
        for t, how, x in st:
            n += 1
            inst = "%s.%s sized for %s (%s)" % (V, slot, kind, how)
            if how == "forgets":
                cx.ob(R, C.kp, inst, False, "the maximum becomes %s: larger values seen before are forgotten" % show(x))
                continue
            good, why = covers(t, [norm(y) for y in x], w, signed, bits)
            if good is None:
                late.append("what %s.%s is sized for" % (V, slot))
                continue
            cx.ob(R, C.kp, inst, good, why)
    if n < 8:
        raise Anchor("columns: %d sized values" % n)
    if late:
        raise Anchor(late[0])


ARITH = {"lin", "bnot", "min", "max", "trunc", "sext", "u", "mul", "and", "or", "xor", "shl", "shr", "sar"}


def free_leaves(x):
    """the operands of the arithmetic of x"""
    if x.op == "c":
        return set()
    if x.op == "lin":
        return set().union(*[free_leaves(y) for y in lin_parts(x)[1]])
    if x.op in ARITH:
        return set().union(set(), *[free_leaves(y) for y in x.a if isinstance(y, T)])
    if x.op in ("call", "pure") and isinstance(x.a[1], tuple) and re.search(r"<impl i\d+>::", str(x.a[0])):
        return set().union(set(), *[free_leaves(y) for y in x.a[1] if isinstance(y, T)])
    return {x}


def covers(t, xs, w, signed, bits):
    """the bytes of max(xs) are enough for w, on this trace"""
    if not xs:
        return False, "the column is not made to cover %s" % show(w)
    nb = {norm(k): v for k, v in t.bnd.items()}
    best = None
    for x in xs:
        if not contains(x, lambda y: y is w):
            continue
        if x is w and not signed:
            return True, ""
        bad = unk = None
        other = [y for y in free_leaves(x) if y is not w]
        if len(other) > 2:
            return None, ""
        import itertools
        for s, o in itertools.product(samples(signed, bits), itertools.product((0, 1, 2, 5, 31), repeat=len(other))):
            env = dict(zip(other, o))
            env[w] = s
            if not consistent(nb, {}, env):
                continue
            v = evs(x, env)
            if v is None:
                unk = True
                break
            need = sbytes(s) if signed else ubytes(s)
            got = ubytes(v)
            if got is None or got < need:
                bad = "the value %d needs %d bytes%s, the column is sized for %s" % (s, need, "".join(", %s = %d" % (show(y), z) for y, z in zip(other, o)), "%d: %s" % (v, got if got is not None else "a negative maximum"))
                break
        if not bad and not unk:
            return True, ""
        best = None if unk else bad
        if unk:
            return None, ""
    return False, best or "the column covers %s; what is written is %s" % (", ".join(show(x) for x in xs), show(w))


KEYW = {("deported_info", "Some", "0", "0"), ("value_id_size",)}


def layouts(cx, C, R=None):
    """layout variant -> {path of a width: schema slot}; checks the layout made from a schema when R is given"""
    r = {}
    for V, (i, fs) in C.vs.items():
        for t in cx.traces(C.kf, stop=[NB, re.compile(r"StoreHandle::key_size$")], assume=[(eq(mk("discr", A[0]), c(i)), True)]):
            if t.kind != "ret":
                continue
            v = t.val
            if not isagg(v) or v.a[1] not in C.ls:
                raise Anchor("%s: the layout of %s" % (C.kf, V))
            LV = v.a[1]
            d = r.setdefault(LV, {})
            for path, x in leaves(v):
                if x.op == "call" and NB.search(x.a[0]):
                    y = x.a[1][0]
                    if y.op == "pl" and y.a[1] == "Auto" and y.a[0].op == "pl" and y.a[0].a[0] is A[0]:
                        sl = y.a[0].a[2]
                        if R:
                            cx.ob(R, C.kf, "%s %s" % (V, ".".join(path)), d.get(path, sl) == sl, "the width comes from %s or %s" % (d.get(path), sl))
                        d[path] = sl
                    elif R:
                        raise Anchor("%s: width of %s" % (C.kf, ".".join(path)))
                elif x.op == "pl" and x.a[1] == "Fixed" and x.a[0].op == "pl" and x.a[0].a[0] is A[0]:
                    sl = x.a[0].a[2]
                    if R:
                        cx.ob(R, C.kf, "%s %s" % (V, ".".join(path)), d.get(path, sl) == sl, "the width comes from %s or %s" % (d.get(path), sl))
                    d[path] = sl
    return r


def leaves(v, path=()):
    if isagg(v) and v.a[0] != "closure":
        for k, x in agg_items(v):
            p = path + ((v.a[1],) if path and v.a[1] else ()) + (str(k),)
            yield from leaves(x, p)
    else:
        yield path, v


def r_key(cx, R):
    cx.rule(R, "the handle of a value gives the key the value has in its store, and the same one each time it is asked for it")
    k = cx.m("ValueHandle", "get", "")
    st = cx.field("ValueHandle", r"StoreHandle")
    ix = [x for x in cx.fields("ValueHandle", r"") if x != st]
    if len(ix) != 1:
        raise Anchor("fields of a value handle: %s" % ix)
    ix = ix[0]
    ts = [t for t in cx.traces(k, stop=[r"StoreHandle::\w+$"]) if t.kind == "ret"]
    n = 0
    for t in ts:
        n += 1
        fin = final(t, A[0])
        was, now = F(A[0], st), F(fin, st)
        held = t.E.decide(t.st, eq(mk("discr", was), c(0)))
        if held is None:
            raise Anchor("%s: whether the store is still known" % k)
        v = strip_newtype(t.val)
        if held:
            cx.ob(R, k, "a key once known stays", v is strip_newtype(F(A[0], ix)) and F(fin, ix) is F(A[0], ix), "the key becomes %s" % show(F(fin, ix)))
            continue
        g = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("StoreHandle::get")]
        if len(g) != 1:
            raise Anchor("%s: where the key comes from" % k)
        cx.ob(R, k, "asked for the value's own number", strip_newtype(g[0].args[1]) is strip_newtype(F(A[0], ix)), "the key of %s is asked for" % show(g[0].args[1]))
        cx.ob(R, k, "the key of the store", v is strip_newtype(g[0].res), "the key given is %s" % show(v))
        gone = isagg(now) and now.a[1] == "None"
        cx.ob(R, k, "the same key the next time", strip_newtype(F(fin, ix)) is strip_newtype(g[0].res) if gone else now is was and F(fin, ix) is F(A[0], ix),
              "the next key given is %s" % (show(F(fin, ix)) if gone else "asked to another store, or for %s" % show(F(fin, ix))))
    if n < 1:
        raise Anchor("%s: no path" % k)
    # a handle turned into a word: what the word gives is the same key
    for k in cx.keys(r"impl core::convert::From<[\w:]*ValueHandle> for [\w:]*Word<[\w:]+>>::from$"):
        for t in cx.traces(k, stop=[r"StoreHandle::\w+$"]):
            if t.kind != "ret":
                continue
            cr = [e for l in t.effs if l.kind == "loop" for i in l.x["iters"] for e in i.effs if e.kind == "cret"]
            held = t.E.decide(t.st, eq(mk("discr", F(A[0], st)), c(0)))
            if not cr or held is None:
                raise Anchor("%s: what the word gives" % k)
            for e in cr:
                v = strip_newtype(e.args[0])
                if held:
                    cx.ob(R, k, "a known key", v is strip_newtype(F(A[0], ix)), "the word gives %s" % show(v))
                else:
                    good = v.op == "call" and re.search(r"StoreHandle::get\b", v.a[0]) and strip_newtype(v.a[1][-1]) is strip_newtype(F(A[0], ix)) and contains(v.a[1][0], lambda y: y is F(A[0], st))
                    cx.ob(R, k, "a key of the store", bool(good), "the word gives %s" % show(v))


# ---- W4: what is written for an entry ---------------------------------------------------------
SINK = A[3]


def entry_iters(cx):
    """[(layout variant, kind, iteration, writes [(width, enc, value)], element)] of Properties::serialize_entry"""
    if hasattr(cx, "_ei"):
        return cx._ei
    k = [x for x in cx.keys(r"creator::directory_pack::layout::properties::Properties::<\w+>::serialize_entry") if cx.fn(x).get("root") and not cx.fn(x).get("closure")]
    if not k:
        raise Anchor("layout Properties::serialize_entry")
    k = k[0]
    ls = variants(cx, "Property", LAY)
    ts = oks(cx.traces(k, stop=[re.compile(r"value_store::ValueHandle::get$|StoreHandle::\w+$")]))
    r = []
    seen = set()
    for t in ts:
        env = []
        for e in t.effs:
            if e.kind != "loop":
                continue
            for it in e.x["iters"]:
                if id(it) in seen:
                    continue
                seen.add(id(it))
                it.E = t.E
                cands = {y.a[0] for x in list(it.bnd) + list(it.facts) for y in walk(x) if y.op == "discr" and y.a[0].op in ("elem", "idx")}
                el = [x for x in cands if which(it, x, ls)]
                if len(el) != 1:
                    raise Anchor("%s: which property an iteration writes" % k)
                V = which(it, el[0], ls)
                vc = valcalls(it.effs)
                ws = items(it.effs, sink_of(cx, k), [e.x["init"]])
                r.append((V, kind_of(cx, it, vc), it, table(ws), el[0], vc, t))
    if len({x[0] for x in r}) < len(ls):
        raise Anchor("%s: properties written: %s" % (k, sorted({x[0] for x in r})))
    cx._ei = k, r
    return cx._ei


def sink_of(cx, k):
    f = cx.fn(k)
    i = [j for j in range(f["argc"]) if "Serializer" in cx.lib.types[f["locals"][j + 1]]["s"]]
    if len(i) != 1:
        raise Anchor("%s: the serializer" % k)
    return F(A[i[0]], cx.field("Serializer", r"Vec<u8>"))


def rel_path(x, el, V):
    """path inside the layout property of a term"""
    p = []
    while x is not el:
        if x.op == "discr":
            x = x.a[0]
            continue
        if x.op == "pl":
            p.insert(0, x.a[2])
            if x.a[0] is not el:
                p.insert(0, x.a[1])
            x = x.a[0]
        elif x.op == "fld":
            p.insert(0, str(x.a[1]))
            x = x.a[0]
        else:
            return None
    return tuple(p)


def writes(cx):
    """layout variant -> [(kind, width path, value, signed, bits, where)]"""
    k, its = entry_iters(cx)
    vs = vals_vs(cx)
    r = {}
    for V, kind, it, tb, el, vc, t in its:
        for o, w, e, x in tb:
            if w in ("loop", "partial"):
                raise Anchor("%s: how %s is written" % (k, V))
            if e not in ("le", "be") or w.op == "c":
                continue
            p = rel_path(w, el, V)
            v = norm(x)
            while v.op in ("trunc", "sext") and v.a[0] >= 64:
                v = v.a[1]
            ty = " ".join(vs[kind][1].values()) if kind in vs else ""
            signed = bool(re.search(r"\bi\d+\b", ty))
            r.setdefault(V, [])
            item = (kind, p, v, signed, 64, k)
            if item not in r[V]:
                r[V].append(item)
    return r


# the bytes of a property in an entry, in order: (width, encoding, value)
INTS = {"Unsigned": "UnsignedInt", "UnsignedWord": "UnsignedInt", "Signed": "SignedInt", "SignedWord": "SignedInt"}
ARRS = {"Array", "Array0", "Array1", "Array2"}
OPTV = {"None": (0, {}), "Some": (1, {})}


def d(x):
    return mk("discr", x)


def optional(t, x):
    """(known, payload) of an option on a trace"""
    if isagg(x):
        return True, pl(x, "Some", "0") if x.a[1] == "Some" else None
    w = which(t, x, OPTV)
    return (False, None) if w is None else (True, pl(x, "Some", "0") if w == "Some" else None)


def expected(cx, V, kind, it, el):
    """what has to be written for a value of this kind in this property; None: must be refused; raises Anchor when the iteration does not tell"""
    P = lambda *vf: pl(VAL, *vf)
    num = lambda k: mk("word", P(k, "0")) if k.endswith("Word") else P(k, "0")
    if V in ("UnsignedInt", "SignedInt"):
        if INTS.get(kind) != V:
            return None
        known, df = optional(it, pl(el, V, "default"))
        if not known:
            raise Anchor("whether the property has a default")
        return [] if df is not None else [(d(pl(el, V, "size")), "le", num(kind))]
    if V == "ContentAddress":
        if kind != "Content":
            return None
        known, df = optional(it, pl(el, V, "default"))
        if not known:
            raise Anchor("whether the property has a default")
        r = [] if df is not None else [(d(pl(el, V, "pack_id_size")), "le", F(P("Content", "0"), "pack_id"))]
        return r + [(d(pl(el, V, "content_id_size")), "le", F(P("Content", "0"), "content_id"))]
    if V == "IndirectArray":
        return [(d(pl(el, V, "value_id_size")), "le", mk("id", P("IndirectArray", "0")))] if kind == "IndirectArray" else None
    if V == "Array":
        if kind == "IndirectArray":
            known, dp = optional(it, pl(el, V, "deported_info"))
            return [(d(F(pl(el, V, "deported_info", "Some", "0"), "0")), "le", mk("id", P("IndirectArray", "0")))]
        if kind not in ARRS:
            return None
        k1, ls = optional(it, pl(el, V, "array_len_size"))
        k2, dp = optional(it, pl(el, V, "deported_info"))
        if not k1 or not k2:
            raise Anchor("which parts the array property has")
        a = P(kind, "0")
        data = F(a, "data")
        r = [] if ls is None else [(d(ls), "le", F(a, "size"))]
        r += [(mk_len(data), "raw", data), (sub(pl(el, V, "fixed_array_len"), mk_len(data)), "pad", c(0))]
        return r + ([] if dp is None else [(d(F(dp, "0")), "le", mk("id", F(a, "value_id")))])
    if V == "Padding":
        return [(pl(el, V, "0"), "pad", c(0))]
    if V == "VariantId":
        return [(c(1), "raw", pl(A[1], "Some", "0"))]
    raise Anchor("the bytes of a %s property" % V)


def unwrap_ids(v):
    def f(x):
        if x.op == "call" and re.search(r"value_store::ValueHandle::get$", str(x.a[0])):
            return mk("id", base_obj(x.a[1][0]))
        return x
    return rebuild(v, f)


def nv(v):
    v = unwrap_ids(norm(v))
    while v.op in ("trunc", "sext") and v.a[0] >= 64:
        v = v.a[1]
    return v


def same(it, a, b):
    return a is b or it.E.decide(it.st, eq(a, b)) is True


def r_entry(cx, R, kinds=None):
    cx.rule(R, "an entry is written property by property: the number itself (a deferred word as the number it evaluates to) in the column's width, pack id before content id, array length, "
               "inline bytes padded with zeros, value id; nothing but the entry's own value of that property, and no value of another kind")
    k, its = entry_iters(cx)
    for V, kind, it, tb, el, vc, t in its:
        if kinds and kind not in kinds:
            continue
        inst = "%s <- %s" % (V, kind) if kind else V
        for e in vc:
            nm = e.args[1]
            cx.ob(R, k, inst + ": own value", e.args[0] is A[2] and same_str(nm, pl(el, V, "name")), "the value read is %s of %s" % (show(nm), show(e.args[0])))
        exp = expected(cx, V, kind, it, el)
        if exp is None:
            cx.ob(R, k, inst, False, "a %s value is accepted for a %s property" % (kind, V))
            continue
        got = [(w, e, x) for o, w, e, x in tb]
        if any(w in ("loop", "partial") for w, e, x in got):
            raise Anchor("%s: how %s is written" % (k, V))
        exp = [x for x in exp if not same(it, x[0], c(0))]
        got = [x for x in got if not same(it, x[0], c(0))]
        if len(exp) == len(got) == 1 and exp[0][1] == "raw" and V == "VariantId":
            x = nv(got[0][2])
            if got[0][1] == "le":
                got = [(got[0][0], "raw", x)]
        bad = len(exp) != len(got)
        msg = "%d parts are written, not %d: %s" % (len(got), len(exp), "; ".join("%s %s %s" % (show(w), e, show(x)) for w, e, x in got))[:300]
        if not bad:
            for (w1, e1, x1), (w2, e2, x2) in zip(exp, got):
                w2n, x2n = nv(w2), nv(x2)
                if not (same(it, w1, w2n) or norm(w1) is w2n):
                    bad, msg = True, "%s is written on %s bytes, not %s" % (show(x2n), show(w2n), show(w1))
                elif e1 != e2:
                    bad, msg = True, "%s is encoded as %s, not %s" % (show(x2n), e2, e1)
                elif x1 is not x2n and strip_one(x2n) is not x1:
                    bad, msg = True, "what is written is %s, not %s" % (show(x2n), show(x1))
                if bad:
                    break
        cx.ob(R, k, inst, not bad, msg)


def same_str(a, b):
    return a is b


def strip_one(x):
    """a narrowing that is undone by the width it is written with, or a one-field wrapper"""
    while x.op == "fld" and str(x.a[1]) == "0":
        x = x.a[0]
    return x


# ---- constant columns ---------------------------------------------------------------------------
def r_constant(cx, R):
    cx.rule(R, "a column is stored once (as the layout's default) only when every entry has that very value: the counter becomes One(v) on the first value, stays so only while "
               "values are equal, and the default is the counter's value; the value compared is the one that would be written")
    C = Columns(cx)
    n = 0
    late = []
    for V, (i, fs) in C.vs.items():
        for f in C.slots(V, "ValueCounter"):
            for st, (j, _) in C.vc.items():
                old = mk("pl", A[0], V, f)
                for t in cx.traces(C.kp, stop=[NB], assume=[(eq(mk("discr", A[0]), c(i)), True), (eq(mk("discr", old), c(j)), True)]):
                    if t.kind != "ret":
                        continue
                    kind = kind_of(cx, t, valcalls(t.effs))
                    if kind is None:
                        late.append("kind of value in process")
                        continue
                    w = counted(V, kind)
                    if w is None:
                        continue
                    n += 1
                    new = C.after(t, V, f)
                    inst = "%s.%s: %s then %s" % (V, f, st, kind)
                    if isagg(new):
                        av, ap = new.a[1], agg_get(new, "0")
                    elif new is old:
                        av, ap = st, mk("pl", old, st, "0")
                    elif new.op == "upd" and base_obj(new) is old:
                        av, ap = st, pl(new, st, "0")
                    else:
                        late.append("%s.%s after an entry" % (V, f))
                        continue
                    if av == "Many":
                        cx.ob(R, C.kp, inst, True)
                    elif av == "None":
                        cx.ob(R, C.kp, inst, False, "an entry's value is not counted")
                    elif st == "None":
                        cx.ob(R, C.kp, inst, nv(ap) is w, "the first value is remembered as %s" % show(nv(ap)))
                    elif st == "Many":
                        cx.ob(R, C.kp, inst, False, "a column with several values becomes constant")
                    else:
                        nb = {nv(k): v for k, v in t.bnd.items()}
                        d0 = mk("pl", old, "One", "0")
                        eqv = any(v[0] == 0 and v[1] == 0 and (k is nv(sub(d0, w)) or k is nv(sub(w, d0))) for k, v in nb.items()) or \
                            any(v and k.op == "eq" and {nv(k.a[0]), nv(k.a[1])} == {d0, w} for k, v in t.facts.items())
                        kept = nv(ap) in (d0, w)
                        cx.ob(R, C.kp, inst, eqv and kept, "the column stays constant with %s although the value may differ" % show(nv(ap)))
    if n < 6:
        raise Anchor("constant columns: %d transitions" % n)
    for V, (i, fs) in C.vs.items():
        sl = C.slots(V, "ValueCounter")
        for t in cx.traces(C.kf, stop=[NB, re.compile(r"StoreHandle::key_size$")], assume=[(eq(mk("discr", A[0]), c(i)), True)]):
            if t.kind != "ret" or not isagg(t.val):
                continue
            if agg_get(t.val, "default") is None:
                continue
            known, df = optional(t, agg_get(t.val, "default"))
            if not known:
                late.append("default of %s" % V)
            elif df is not None:
                okk = len(sl) == 1 and df is mk("pl", mk("pl", A[0], V, sl[0]), "One", "0") and t.E.decide(t.st, eq(mk("discr", mk("pl", A[0], V, sl[0])), c(C.vc["One"][0]))) is True
                cx.ob(R, C.kf, "%s default" % V, okk, "the default is %s" % show(df))
            else:
                cx.ob(R, C.kf, "%s default" % V, True)
    if late:
        raise Anchor(late[0])


def counted(V, kind):
    if V in ("UnsignedInt", "SignedInt"):
        if INTS.get(kind) != V:
            return None
        return mk("word", pl(VAL, kind, "0")) if kind.endswith("Word") else pl(VAL, kind, "0")
    if V == "ContentAddress" and kind == "Content":
        return F(pl(VAL, "Content", "0"), "pack_id")
    return None


# ---- size of an entry -----------------------------------------------------------------------------
def r_size(cx, R):
    cx.rule(R, "the size a property is given in the entry is the number of bytes written for it; an entry's size is the sum over its properties, variants filled to the size of the largest")
    k, its = entry_iters(cx)
    ks = cx.m("Property", "size")
    ls = variants(cx, "Property", LAY)
    n = 0
    for V, kind, it, tb, el, vc, t in its:
        tot = c(0)
        for o, w, e, x in tb:
            if w in ("loop", "partial"):
                raise Anchor("%s: how %s is written" % (k, V))
            tot = add(tot, nv(w))
        for s in cx.traces(ks, assume=[(eq(mk("discr", A[0]), c(ls[V][0])), True)]):
            if s.kind != "ret":
                continue
            ren = lambda y: rebuild(y, lambda z: el if z is A[0] else z)
            clash = False
            for x, (lo, hi, ex) in s.bnd.items():
                y = ren(x)
                b = it.bnd.get(y)
                if b and y.op == "discr" and (b[0] or 0) == b[1] and not ((lo or 0) <= b[1] <= (hi if hi is not None else b[1])):
                    clash = True
            if clash:
                continue
            if V == "Array" and kind == "IndirectArray":
                continue
            n += 1
            v = ren(s.val)
            while v.op == "trunc" and v.a[0] >= 16:
                v = v.a[1]
            good = norm(v) is norm(tot) or it.E.decide(it.st, eq(v, tot)) is True or sub(norm(v), norm(tot)) is c(0)
            cx.ob(R, ks, "%s <- %s" % (V, kind), good, "%s bytes are written, the size is %s" % (show(norm(tot)), show(norm(v))))
    if n < 8:
        raise Anchor("sizes compared: %d" % n)


# ---- every entry, every property --------------------------------------------------------------------
def loops_calling(t, pat):
    r = re.compile(pat)
    out = []

    def go(effs, at, path):
        for e in effs:
            if e.kind == "loop":
                if any(x.kind == "call" and (r.search(x.name) or r.search(x.rdef or "")) for it in e.x["iters"] for x in it.effs):
                    out.append((e, at, path))
                for it in e.x["iters"]:
                    go(it.effs, At(t.E, it.st), path + [(e, it)])
    go(t.effs, t, [])
    return out


class At:
    def __init__(self, E, st):
        self.E, self.st = E, st


def origins(t):
    m = {}
    for l in flat_loops(t.effs):
        m.update(l.x["init"])

    def origin(v):
        seen = set()
        while v is not None and v not in seen:
            seen.add(v)
            w = base_obj(v)
            if w.op == "lv" and w in m:
                w = m[w]
            if w is v:
                return v
            v = w
        return v
    return origin


def each(cx, R, k, t, pat, seq, what, argn=0, extra=None):
    """on this trace, one call matching `pat` runs on every element of `seq`; -> loop or None (then recorded as a violation)"""
    org = origins(t)
    r = re.compile(pat)
    hits = []
    for e, at, path in loops_calling(t, pat):
        for it in e.x["iters"]:
            for x in it.effs:
                if x.kind == "call" and (r.search(x.name) or r.search(x.rdef or "")):
                    o = org(x.args[argn])
                    if o.op in ("idx",) and strip_newtype(o.a[0]) is seq:
                        hits.append((e, at, o.a[0], x))
    if not hits:
        return None
    e, at, sq, x = hits[0]
    v = visit(at, e, sq, org)
    if v is None:
        raise Anchor("%s: whether %s" % (k, what))
    per = all(sum(1 for x in it.effs if x.kind == "call" and (r.search(x.name) or r.search(x.rdef or ""))) == 1 for it in e.x["iters"])
    return v[0] and per, hits


def strip_newtype(v):
    while v.op == "fld" and str(v.a[1]) == "0":
        v = v.a[0]
    return v


PROC = r"schema::property::Property::<\w+>::process$"


def r_accepted(cx, R):
    cx.rule(R, "a value as wide as its fixed column is accepted, and so is a column with an inline part of any length the format allows (0 to 31)")
    C = Columns(cx)
    n = 0
    for V, (i, _) in C.vs.items():
        if not C.slots(V, "PropertySize"):
            continue
        bad = None
        for t in cx.traces(C.kp, stop=[NB], assume=[(eq(mk("discr", A[0]), c(i)), True)], paths=True):
            if t.kind == "ret":
                continue
            nbs = {y for x in t.bnd for y in walk(x) if y.op == "call" and NB.search(y.a[0])}
            if not nbs:
                continue        # refuses a kind of value
            n += 1
            fx = {y for x in t.bnd for y in walk(x) if y.op == "pl" and y.a[1] == "Fixed"}
            for w in range(1, 9):
                env = {**{y: w for y in nbs}, **{y: w for y in fx}, **{mk("discr", y): w for y in fx}}
                if consistent(t.bnd, t.facts, env) and all(evs(x, env) is not None for x in t.bnd if any(y in nbs for y in walk(x))):
                    bad = w
        cx.ob(R, C.kp, "%s: values as wide as the column" % V, bad is None, "a value of %s bytes is refused (panic) by a column of %s bytes" % (bad, bad))
        for t in cx.traces(C.kf, stop=[NB, re.compile(r"StoreHandle::key_size$")], assume=[(eq(mk("discr", A[0]), c(i)), True)], paths=True):
            if t.kind == "ret":
                continue
            ln = {x for x in t.bnd if x.op == "pl" and x.a[0] is A[0] and x.a[1] == V}
            if len(ln) != 1:
                continue
            ln, = ln
            bad = [m for m in range(32) if consistent(t.bnd, t.facts, {ln: m})]
            cx.ob(R, C.kf, "%s: inline parts of any length" % V, not bad, "panics for %s = %s" % (ln.a[2], bad and bad[-1]))
    if not n:
        cx.ob(R, C.kp, "no refusal", True)


def r_process(cx, R):
    cx.rule(R, "every entry of a store is counted in every column it has: all the common properties and all the properties of its variant")
    k = cx.m("Schema", "process")
    common = strip_newtype(F(A[0], "common"))
    n = 0
    for t in oks(cx.traces(k, stop=[re.compile(PROC)])):
        n += 1
        r = each(cx, R, k, t, PROC, common, "every common property is processed")
        cx.ob(R, k, "common properties", r is not None and r[0], "not every common property is processed" if r else "the common properties are not processed")
        if r:
            cx.ob(R, k, "the entry", all(x.args[1] is A[1] for _, _, _, x in r[1]), "another entry is processed")
        vn = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("EntryTrait::variant_name")]
        if not vn:
            if t.E.decide(t.st, eq(mk_len(F(A[0], "variants")), c(0))) is True:
                continue
            cx.ob(R, k, "variant properties", False, "the entry's variant is never asked for")
            continue
        some = [e for e in vn if t.E.decide(t.st, eq(mk("discr", e.res), c(1))) is True]
        if not some:
            continue
        hit = []
        for l in flat_loops(t.effs):
            for it in l.x["iters"]:
                same = [f for f, b in it.facts.items() if b and f.op == "eq" and any(y.op == "fld" and y.a[1] == "0" and y.a[0].op == "idx" and y.a[0].a[0] is F(A[0], "variants") for y in f.a)]
                if same:
                    cx.ob(R, k, "its variant is not passed over", any(x.kind == "call" and re.search(PROC, x.name) for x in flat(it.effs)), "the variant of the entry's name may be passed over without its properties being counted")
        for e, at, path in loops_calling(t, PROC):
            for it in e.x["iters"]:
                for x in it.effs:
                    if x.kind == "call" and re.search(PROC, x.name):
                        o = origins(t)(x.args[0])
                        if o.op == "idx":
                            s = strip_newtype(o.a[0])
                            if s.op == "fld" and s.a[1] == "1" and s.a[0].op == "idx" and s.a[0].a[0] is F(A[0], "variants"):
                                hit.append((e, at, o.a[0], s.a[0], x, path))
        if not hit:
            named = [x for x, val in t.facts.items() if val and x.op == "eq" and any(contains(y, lambda z: z.op == "idx" and z.a[0] is F(A[0], "variants")) for y in x.a)]
            if named and not any(e.kind == "call" and re.search(PROC, e.name) and contains(e.args[0], lambda z: z.op == "idx" and contains(z, lambda y: y is F(A[0], "variants"))) for e in flat(t.effs)):
                cx.ob(R, k, "variant properties", False, "the properties of the entry's variant are not processed")
                continue
            # no variant of that name
            cnt = [lv for l in flat_loops(t.effs) for lv, i0 in l.x["init"].items() if i0 is c(0) and t.E.decide(t.st, le(mk_len(F(A[0], "variants")), lv)) is True]
            if not cnt:
                raise Anchor("%s: which variant is processed" % k)
            named_ = all(any(x.op == "eq" and contains(x, lambda y: y.op == "idx" and y.a[0] is F(A[0], "variants")) for x in list(it.facts)) for l in flat_loops(t.effs)
                         for it in l.x["iters"] if any(lv in l.x["init"] for lv in cnt))
            cx.ob(R, k, "variant properties", named_, "the properties of the entry's variant are not processed")
            continue
        for e, at, sq, vt, x, path in hit[:1]:
            v = visit(at, e, sq, origins(t))
            if v is None:
                raise Anchor("%s: whether every property of the variant is processed" % k)
            at_facts = list(t.facts.items()) + [f for l, it in path for f in it.facts.items()]
            sel = any(val and f.op == "eq" and F(vt, "0") in f.a for f, val in at_facts)
            wrong = any((not val) and f.op == "eq" and F(vt, "0") in f.a for f, val in at_facts)
            if not sel and not wrong:
                raise Anchor("%s: which variant is processed" % k)
            cx.ob(R, k, "variant properties", v[0] and sel and x.args[1] is A[1], "not every property of the entry's variant is processed" if sel else "the properties of another variant are processed")
    # every entry
    k = cx.m("EntryStore", "finalize", "EntryStoreTrait")
    ef = cx.field("EntryStore", r"^alloc::vec::Vec<")
    SP = r"schema::Schema::<.*>::process$"
    for t in oks(cx.traces(k, stop=[re.compile(SP), re.compile(r"schema::Schema::<.*>::finalize$")])):
        r = each(cx, R, k, t, SP, F(A[0], ef), "every entry is processed", argn=1)
        cx.ob(R, k, "every entry", r is not None and r[0], "not every entry is processed" if r else "entries are not processed")
        # the layout is made after
        names = [(e.kind == "loop" and any(x.kind == "call" and re.search(SP, x.name) for x in flat([e])), e.kind == "call" and e.name.endswith("::finalize") and "Schema" in e.name) for e in t.effs]
        lp = [i for i, x in enumerate(names) if x[0]]
        fi = [i for i, x in enumerate(names) if x[1]]
        if not fi:
            raise Anchor("%s: the layout" % k)
        cx.ob(R, k, "layout made after", bool(lp) and max(lp) < min(fi), "the layout is made before every entry was processed")
        fs = [e for e in t.effs if e.kind == "call" and e.name.endswith("::finalize") and "Schema" in e.name][0]
        v = [x for x in walk(t.val) if isagg(x, "FinalEntryStore")]
        if len(v) != 1:
            raise Anchor("%s: what it returns" % k)
        org = origins(t)
        ok_l = fld(v[0], cx.field("FinalEntryStore", r"layout::")) is fs.res
        ent = org(fld(v[0], cx.field("FinalEntryStore", r"^alloc::vec::Vec<")))
        cx.ob(R, k, "the entries and their layout", ok_l and ent is F(A[0], ef), "the finalized store holds %s" % show(v[0]))
    # and every entry is written, in order
    k = cx.m("FinalEntryStore", "write_data", "WritableTell")
    ef = F(A[0], cx.field("FinalEntryStore", r"^alloc::vec::Vec<"))
    SE = r"layout::(entry::)?Entry::<.*>::serialize_entry$"
    for t in oks(cx.traces(k, stop=[re.compile(SE)])):
        r = each(cx, R, k, t, SE, ef, "every entry is written", argn=1)
        cx.ob(R, k, "every entry is written", r is not None and r[0], "not every entry is written" if r else "entries are not written")
        if r:
            v = visit(t, r[1][0][0], r[1][0][2], origins(t))
            cx.ob(R, k, "in order", v is not None and not v[1], "entries are written in reverse order")
            cx.ob(R, k, "with the store's layout", all(origins(t)(x.args[0]) is F(A[0], cx.field("FinalEntryStore", r"layout::")) for _, _, _, x in r[1]), "another layout is used")


# ---- which properties an entry has ------------------------------------------------------------------
def seqs(v):
    """an iterator as the list of sequences it visits completely, in order; None: not recognised"""
    v = unref(v)
    if v.op == "call" and v.a[0].endswith("Iterator::chain"):
        a, b = seqs(v.a[1][0]), seqs(v.a[1][1])
        return None if a is None or b is None else a + b
    if isagg(v):
        nm = v.a[0].rsplit("::", 1)[-1] if v.a[0] else ""
        if v.a[0] in ("it:seq",) or nm in ("it:seq",):
            return [strip_newtype(fld(v, "src"))] if fld(v, "pos") is c(0) else None
        if v.a[0] == "it:chain":
            a, b = seqs(fld(v, "a")), seqs(fld(v, "b"))
            return None if a is None or b is None else a + b
    if v.op in ("fld", "idx", "arg"):
        return [strip_newtype(v)]
    return None


def unref(v):
    while v.op in ("ref", "mref"):
        v = v.a[0]
    return v


SER_ENTRY = r"layout::properties::Properties::<.*>::serialize_entry$"


def r_keys(cx, R):
    cx.rule(R, "the bytes of an entry are its common properties followed by the properties of its own variant (with that variant's number), every one of them, in layout order")
    k = [x for x in cx.keys(r"creator::directory_pack::layout::entry::Entry::<[\w, ]+>::serialize_entry") if cx.fn(x).get("root") and not cx.fn(x).get("closure")]
    if not k:
        raise Anchor("layout Entry::serialize_entry")
    k = k[0]
    lay = "Entry"
    fc, fv, fm = (F(A[0], x) for x in ("common", "variants", "variants_map"))
    n = 0
    for t in oks(cx.traces(k, stop=[re.compile(SER_ENTRY)])):
        cs = [e for e in flat(t.effs) if e.kind == "call" and re.search(SER_ENTRY, e.name)]
        cx.ob(R, k, "written once", len(cs) == 1, "the properties of an entry are written %d times" % len(cs))
        if len(cs) != 1:
            continue
        n += 1
        it, vid, ent, ser = cs[0].args
        sq = seqs(it)
        if sq is None:
            raise Anchor("%s: which properties are written: %s" % (k, show(it)[:80]))
        none = t.E.decide(t.st, eq(mk_len(fv), c(0)))
        cx.ob(R, k, "common properties first", bool(sq) and sq[0] is fc, "the common properties are not written first")
        if none is None:
            raise Anchor("%s: whether there are variants" % k)
        if none:
            cx.ob(R, k, "without variants", sq[1:] == [] and isagg(vid) and vid.a[1] == "None", "more than the common properties is written")
        else:
            good = len(sq) == 2 and sq[1].op == "idx" and sq[1].a[0] is fv
            cx.ob(R, k, "the variant's properties", good, "the properties of a variant are not written after the common ones")
            if good:
                i = strip_newtype(sq[1].a[1])
                v = pl(vid, "Some", "0") if isagg(vid) and vid.a[1] == "Some" else None
                cx.ob(R, k, "the variant's number", v is not None and strip_newtype(v) is i, "the number written is not that of the variant whose properties are written")
                from_map = i.op == "call" and re.search(r"(Index::index|::get)$", i.a[0]) and base_obj(i.a[1][0]) is fm
                nm = i.a[1][1] if from_map else None
                cx.ob(R, k, "variant by the entry's name", bool(from_map) and contains(nm, lambda y: y.op == "call" and y.a[0].split("#")[0].endswith("EntryTrait::variant_name") and y.a[1][0] is ent),
                      "the variant is %s" % show(i))
        cx.ob(R, k, "the entry itself", ent is A[1], "another entry is written")
        cx.ob(R, k, "into the entry's bytes", base_obj(ser) is A[2], "written elsewhere")
    if n < 2:
        raise Anchor("%s: ways to write an entry: %d" % (k, n))
    k, its = entry_iters(cx)
    for t in oks(cx.traces(k, stop=[re.compile(r"value_store::ValueHandle::get$|StoreHandle::\w+$")])):
        for e in t.effs:
            if e.kind != "loop":
                continue
            if not any(valcalls(it.effs) for it in e.x["iters"]):
                continue
            srcs = [lv for lv, i0 in e.x["init"].items() if unref(i0) is A[0]]
            if not srcs:
                raise Anchor("%s: the properties visited" % k)
            lv = srcs[0]
            more = t.facts.get(mk("more", lv))
            cx.ob(R, k, "every property", more is not None and not more, "writing stops before the last property")
            for it in e.x["iters"]:
                nx = it.next.get(lv)
                cx.ob(R, k, "one property after the other", nx is None or nx is mk("nx", lv), "a property is skipped")


def r_layout(cx, R):
    cx.rule(R, "the layout of a store has, in schema order, one layout property per schema property, made from it; variants in schema order, each under its own name and "
               "number and preceded by the variant id; the entry size is that of the common part plus the largest variant")
    PF = r"schema::property::Property::<\w+>::finalize$"
    k = [x for x in cx.keys(r"schema::properties::Properties::<\w+>::finalize") if cx.fn(x).get("root") and not cx.fn(x).get("closure")]
    if not k:
        raise Anchor("schema Properties::finalize")
    k = k[0]
    n = 0
    for t in oks(cx.traces(k, stop=[re.compile(PF)])):
        some = t.bnd.get(mk("discr", A[1]))
        if not some or some[0] != some[1]:
            raise Anchor("%s: with or without a variant" % k)
        col = [x for x in walk(t.val) if x.op == "call" and x.a[0].endswith("collect")] or [x for x in walk(t.val) if x.op == "collect"]
        if len(col) != 1:
            raise Anchor("%s: how the layout is collected" % k)
        parts = chain_parts(col[0].a[1][0] if col[0].op == "call" else col[0].a[0])
        if parts is None:
            raise Anchor("%s: what is collected" % k)
        n += 1
        lead = [p for p in parts if p[0] == "one"]
        mp = [p for p in parts if p[0] == "map"]
        cx.ob(R, k, "variant id first" if some[0] else "no variant id", (len(lead) == (1 if some[0] else 0)) and (not lead or (parts[0] is lead[0] and isagg(lead[0][1]) and lead[0][1].a[1] == "VariantId" and
              agg_items(lead[0][1])[0][1] is pl(A[1], "Some", "0"))), "a variant's properties do not start with its id")
        cx.ob(R, k, "every property in order", len(mp) == 1 and strip_newtype(mp[0][2]) is strip_newtype(F(A[0], "0")) or len(mp) == 1 and strip_newtype(mp[0][2]) is A[0],
              "the layout is not made from every property of the schema in order")
        fin = [e for e in flat(t.effs) if e.kind == "cret"]
        cx.ob(R, k, "each from its own property", any(e.args[0].op == "call" and re.search(PF, e.args[0].a[0]) and e.args[0].a[1][0].op in ("carg", "idx", "elem") for e in fin) and
              all(x.args[0].op in ("carg", "idx", "elem") for x in flat(t.effs) if x.kind == "call" and re.search(PF, x.name)), "a layout property is not made from its schema property")
    if n < 2:
        raise Anchor("%s: ways: %d" % (k, n))


def chain_parts(v):
    v = unref(v)
    if v.op == "call" and v.a[0].endswith("Iterator::chain"):
        a, b = chain_parts(v.a[1][0]), chain_parts(v.a[1][1])
        return None if a is None or b is None else a + b
    if isagg(v):
        if v.a[0] == "it:map":
            s = seqs(fld(v, "inner"))
            return None if s is None or len(s) != 1 else [("map", fld(v, "f"), s[0])]
        o = [x for x in walk(v) if isagg(x) and x.a[1] in ("Some", "None")]
        if o and v.a[0].endswith("option::IntoIter"):
            return [("one", agg_items(o[0])[0][1])] if o[0].a[1] == "Some" else []
    return None


def r_variants(cx, R):
    """Schema::finalize and the padding of variants"""
    cx.rule(R, "variants keep the order of the schema: the n-th layout is made from the n-th variant, carries its name and number n; variants are padded to the largest one")
    PF = r"schema::properties::Properties::<.*>::finalize$"
    ES = r"layout::properties::Properties::<.*>::entry_size$"
    FS = r"layout::properties::Properties::<.*>::fill_to_size$"
    k = cx.m("Schema", "finalize")
    vs = F(A[0], "variants")
    for t in oks(cx.traces(k, stop=[re.compile(x) for x in (PF, ES, FS)])):
        if not isagg(t.val):
            raise Anchor("%s: the layout" % k)
        org = origins(t)
        com = fld(t.val, "common")
        good = com.op == "call" and re.search(PF, com.a[0]) and strip_newtype(com.a[1][0]) is strip_newtype(F(A[0], "common")) and isagg(com.a[1][1]) and com.a[1][1].a[1] == "None"
        cx.ob(R, k, "common layout", bool(good), "the common layout is %s" % show(com)[:80])
        lay, mp = base_obj(fld(t.val, "variants")), base_obj(fld(t.val, "variants_map"))
        hit = None
        for e, at, path in loops_calling(t, PF):
            if lay.op == "lv" and lay in e.x["init"]:
                hit = (e, at)
        if not hit:
            raise Anchor("%s: how the variants' layouts are made" % k)
        e, at = hit
        el = None
        for it in e.x["iters"]:
            ps = [x for x in flat(it.effs) if x.kind == "call" and x.name.endswith("::push") and base_obj(x.args[0]) is lay]
            ins = [x for x in flat(it.effs) if x.kind == "call" and x.name.endswith("::insert") and base_obj(x.args[0]) is mp]
            cx.ob(R, k, "one layout per variant", len(ps) == 1 and ps[0].args[1].op == "call" and bool(re.search(PF, ps[0].args[1].a[0])), "a variant gets %d layouts" % len(ps))
            cx.ob(R, k, "one name per variant", len(ins) == 1, "a variant gets %d names" % len(ins))
            if len(ps) != 1 or len(ins) != 1 or ps[0].args[1].op != "call":
                continue
            f = ps[0].args[1]
            el = strip_newtype(f.a[1][0])
            own = el.op == "fld" and el.a[1] == "1" and el.a[0].op == "idx" and el.a[0].a[0] is vs
            if not own:
                raise Anchor("%s: which variant a layout is made from" % k)
            nm = F(el.a[0], "0")
            cx.ob(R, k, "named after its variant", isagg(f.a[1][1]) and f.a[1][1].a[1] == "Some" and contains(f.a[1][1], lambda y: y is nm), "the layout of a variant carries the name %s" % show(f.a[1][1]))
            cx.ob(R, k, "key is the variant", ins[0].args[1] is nm, "the name of another variant is used")
            i = strip_newtype(ins[0].args[2])
            ln = mk_len(lay)
            # before or after the push: the number is the place of the layout
            order = [x for x in flat(it.effs) if x in (ps[0], ins[0])]
            good = i in (sub(trunc(8, add(ln, c(1))), c(1)), trunc(8, ln), ln, trunc(8, sub(add(ln, c(1)), c(1))))
            if not good and not contains(i, lambda y: y is ln):
                r = [lv for lv, i0 in e.x["init"].items() if i0 is c(0) and contains(i, lambda y, lv=lv: y is lv)]
                if not r:
                    raise Anchor("%s: the number of a variant: %s" % (k, show(i)))
                good = all(e2.next.get(r[0]) is add(r[0], c(1)) for e2 in e.x["iters"]) and i in (r[0], trunc(8, r[0]))
            cx.ob(R, k, "numbered by its place", bool(good), "a variant is given the number %s" % show(i))
        cx.ob(R, k, "nothing else in the layouts", e.x["init"][lay].op in ("vec", "call") and mk_len(e.x["init"][lay]) is c(0) or e.x["init"][lay] is mk("vec", c(0)), "layouts start from %s" % show(e.x["init"][lay]))
        v = visit(at, e, vs, org)
        if v is None:
            raise Anchor("%s: whether every variant gets a layout" % k)
        cx.ob(R, k, "every variant in order", v[0] and not v[1], "not every variant gets a layout, in order")
        # sizes
        sz = fld(t.val, "entry_size")
        base = mk("call", com.a[0], ()) if False else None
        mx = [x for x in walk(sz) if x.op == "max"]
        empty = t.E.decide(t.st, eq(mk_len(lay), c(0)))
        own = [x for x in walk(sz) if x.op == "call" and re.search(ES, x.a[0]) and x.a[1][0] is com]
        if len(own) != 1 or empty is None:
            raise Anchor("%s: the entry size: %s" % (k, show(sz)[:100]))
        if empty:
            cx.ob(R, k, "size without variants", sz is own[0], "the entry size is %s" % show(sz)[:100])
            continue
        if sz is own[0]:
            cx.ob(R, k, "size with variants", False, "the entry size does not count the variants")
            continue
        if not mx and any(x.op == "min" for x in walk(sz)):
            cx.ob(R, k, "size with variants", False, "entries have the size of the smallest variant")
            continue
        if len(mx) != 1:
            raise Anchor("%s: the size of the largest variant: %s" % (k, show(sz)[:100]))
        m = [x for x in walk(sz) if x.op == "pl" and x.a[0] is mx[0]]
        m = m[0] if m else mx[0]
        cx.ob(R, k, "size with variants", sz is add(own[0], m), "the entry size is %s" % show(sz)[:100])
        r = each2(t, FS, lay)
        if r is None:
            cx.ob(R, k, "variants padded", False, "the variants are not padded to the same size")
            continue
        cx.ob(R, k, "variants padded", r[0], "not every variant is padded")
        cx.ob(R, k, "to the largest size", all(x.args[1] is m for x in r[1]), "variants are padded to another size than the entries are given")
    k = [x for x in cx.keys(FS[:-1] + " ") if cx.fn(x).get("root")] or [x for x in cx.keys(r"layout::properties::Properties::<\w+>::fill_to_size") if cx.fn(x).get("root")]
    if not k:
        raise Anchor("fill_to_size")
    k = k[0]
    n = 0
    for t in cx.traces(k, stop=[re.compile(ES)]):
        if t.kind != "ret":
            continue
        n += 1
        ls = [e for e in t.effs if e.kind == "loop"]
        pv = None
        for e in ls:
            for lv, i0 in e.x["init"].items():
                if contains(i0, lambda y: y.op == "call" and re.search(ES, y.a[0])):
                    pv = (e, lv, i0)
        if not pv:
            still = [e for e in ls if any(x.kind == "call" and x.name.endswith("::push") for it in e.x["iters"] for x in flat(it.effs)) and any(it.bnd or it.facts for it in e.x["iters"])
                     and not any(y.op == "lv" for it in e.x["iters"] for z in list(it.bnd) + list(it.facts) for y in walk(z))]
            if still:
                cx.ob(R, k, "padding ends", False, "padding is added again and again: nothing the loop depends on changes")
                continue
            raise Anchor("%s: the missing size" % k)
        e, lv, i0 = pv
        sz = [y for y in walk(i0) if y.op == "call" and re.search(ES, y.a[0])][0]
        cx.ob(R, k, "missing size", i0 is sub(A[1], sz) and unref(sz.a[1][0]) is A[0], "the padding needed is %s" % show(i0))
        for it in e.x["iters"]:
            ps = [x for x in flat(it.effs) if x.kind == "call" and x.name.endswith("::push")]
            dec = sub(lv, it.next.get(lv, lv))
            got = c(0)
            for x in ps:
                p = x.args[1]
                if not (isagg(p) and p.a[1] == "Padding"):
                    raise Anchor("%s: what is added" % k)
                z = agg_items(p)[0][1]
                got = add(got, z)
                cx.ob(R, k, "a padding of 1 to 16 bytes", z.op == "c" and 1 <= z.a[0] <= 16, "a padding of %s bytes" % show(z))
            cx.ob(R, k, "padding adds up", got is dec, "%s bytes are added for %s missing" % (show(got), show(dec)))
        rest = t.bnd.get(lv, (None, None, ()))
        ps = [x for x in t.effs if x.kind == "call" and x.name.endswith("::push")]
        if ps:
            z = agg_items(ps[0].args[1])[0][1]
            cx.ob(R, k, "the rest", len(ps) == 1 and isagg(ps[0].args[1]) and ps[0].args[1].a[1] == "Padding" and z in (lv, trunc(8, lv)) and rest[0] is not None and rest[0] >= 1 and rest[1] is not None and rest[1] <= 16,
                  "the last padding is %s for %s" % (show(z), rest[:2]))
        else:
            cx.ob(R, k, "the rest", rest[1] is not None and rest[1] <= 0, "up to %s bytes are left without padding" % rest[1])
    if n < 2:
        raise Anchor("%s: ways: %d" % (k, n))


def each2(t, pat, sq):
    """calls of `pat` on every element of `sq` (changed while visited): (every element exactly once, calls) or None"""
    r = re.compile(pat)
    for e, at, path in loops_calling(t, pat):
        xs = [x for it in e.x["iters"] for x in it.effs if x.kind == "call" and r.search(x.name)]
        # the element: idx(sq, pos) carried
        inits = [(lv, i0) for lv, i0 in e.x["init"].items() if i0.op == "idx" and base_obj(i0.a[0]) is sq and i0.a[1].op == "lv"]
        tgt = [lv for lv, i0 in inits if all(base_obj(x.args[0]) is lv for x in xs)]
        pos = [e.x["init"][lv].a[1] for lv in tgt]
        if not tgt:
            pos = {x.args[0].a[1] for x in xs if x.args[0].op == "idx" and base_obj(x.args[0].a[0]) is sq}
            pos = list(pos)
        if len(pos) != 1:
            continue
        p = pos[0]
        full = e.x["init"].get(p) is c(0) and all(it.next.get(p) is add(p, c(1)) for it in e.x["iters"]) and at.E.decide(at.st, le(mk_len(sq), p)) is True
        per = all(sum(1 for x in it.effs if x in xs) == 1 for it in e.x["iters"])
        return full and per, xs
    return None
