"""Hash-consed terms and their normal forms (linear arithmetic, comparisons, bit ops)."""

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "id", "_s", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return skey(self) < skey(o)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._s = None
        _tab[k] = t
    return t


def c(n):
    return mk("c", int(n))


TRUE = c(1)
FALSE = c(0)
UNIT = mk("agg", "()", None, ())
OPT = "core::option::Option"
RES = "core::result::Result"


def is_c(t):
    return t.op == "c"


def sym(n):
    return mk("sym", n)


# ---- aggregates -------------------------------------------------------------
def agg(name, variant, keys, vals):
    return mk("agg", name, variant, tuple(keys), *vals)


def agg_get(t, key):
    ks = t.a[2]
    for i, k in enumerate(ks):
        if k == key:
            return t.a[3 + i]
    return None


def agg_items(t):
    return list(zip(t.a[2], t.a[3:]))


def some(v):
    return agg(OPT, "Some", ("0",), (v,))


NONE = agg(OPT, "None", (), ())


def ok(v):
    return agg(RES, "Ok", ("0",), (v,))


def err(v):
    return agg(RES, "Err", ("0",), (v,))


def tup(*v):
    return agg("()", None, tuple(str(i) for i in range(len(v))), v)


def fld(t, key):
    """read field `key` (('f',name) spelled name) of a value"""
    while True:
        if t.op == "agg":
            r = agg_get(t, key)
            if r is not None:
                return r
            return mk("fld", t, key)
        if t.op == "upd":
            if t.a[1] == key:
                return t.a[2]
            t = t.a[0]
            continue
        return mk("fld", t, key)


def upd(t, key, v):
    if t.op == "agg":
        ks = t.a[2]
        if key in ks:
            vs = list(t.a[3:])
            vs[ks.index(key)] = v
            return mk("agg", t.a[0], t.a[1], ks, *vs)
        return mk("upd", t, key, v)
    # drop a shadowed update
    chain = []
    b = t
    while b.op == "upd":
        if b.a[1] == key:
            base = b.a[0]
            for k2, v2 in reversed(chain):
                base = upd(base, k2, v2)
            return upd(base, key, v)
        chain.append((b.a[1], b.a[2]))
        b = b.a[0]
    if v.op == "fld" and v.a[0] is b and v.a[1] == key and not chain:
        return t
    # canonical order of independent updates
    items = chain + [(key, v)]
    items.sort(key=lambda kv: str(kv[0]))
    base = b
    for k2, v2 in items:
        base = mk("upd", base, k2, v2)
    return base


# ---- linear arithmetic --------------------------------------------------------
def lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin_make(k, d):
    d = {x: v for x, v in d.items() if v != 0}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        (x, v), = d.items()
        if v == 1:
            return x
    return mk("lin", k, tuple(sorted(d.items(), key=lambda xv: xv[0].id)))


def add(a, b):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    for x, v in db.items():
        da[x] = da.get(x, 0) + v
    return lin_make(ka + kb, da)


def neg(a):
    k, d = lin_parts(a)
    return lin_make(-k, {x: -v for x, v in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mulc(a, n):
    k, d = lin_parts(a)
    return lin_make(k * n, {x: v * n for x, v in d.items()})


def mul(a, b):
    if a.op == "c":
        return mulc(b, a.a[0])
    if b.op == "c":
        return mulc(a, b.a[0])
    return mk("mul", *sorted((a, b), key=lambda t: t.id))


def pow2(n):
    return n > 0 and (n & (n - 1)) == 0


def shl(a, b):
    if b.op == "c":
        return mulc(a, 1 << b.a[0])
    return mk("shl", a, b)


def shr(a, b):
    if b.op == "c":
        if b.a[0] == 0:
            return a
        if a.op == "c":
            return c(a.a[0] >> b.a[0])
        if a.op == "shr" and a.a[1].op == "c":
            return mk("shr", a.a[0], c(a.a[1].a[0] + b.a[0]))
    return mk("shr", a, b)


def div(a, b):
    if b.op == "c" and b.a[0] != 0:
        if a.op == "c" and a.a[0] >= 0:
            return c(a.a[0] // b.a[0])
        if pow2(b.a[0]):
            return shr(a, c(b.a[0].bit_length() - 1))
    return mk("div", a, b)


def rem(a, b):
    if b.op == "c" and b.a[0] != 0:
        if a.op == "c" and a.a[0] >= 0:
            return c(a.a[0] % b.a[0])
        if pow2(b.a[0]):
            return band(a, c(b.a[0] - 1))
    return mk("rem", a, b)


def band(a, b):
    if a.op == "c" and b.op == "c":
        return c(a.a[0] & b.a[0])
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.a[0] == 0:
            return c(0)
        if a.op == "and" and a.a[1].op == "c":
            return band(a.a[0], c(a.a[1].a[0] & b.a[0]))
        return mk("and", a, b)
    x, y = sorted((a, b), key=lambda t: t.id)
    return x if x is y else mk("and", x, y)


def bor(a, b):
    if a.op == "c" and b.op == "c":
        return c(a.a[0] | b.a[0])
    if a.op == "c" and a.a[0] == 0:
        return b
    if b.op == "c" and b.a[0] == 0:
        return a
    xs = []
    for t in (a, b):
        xs.extend(t.a if t.op == "or" else (t,))
    xs = sorted(set(xs), key=lambda t: t.id)
    k = 0
    ys = []
    for x in xs:
        if x.op == "c":
            k |= x.a[0]
        else:
            ys.append(x)
    if k:
        ys.append(c(k))
    return ys[0] if len(ys) == 1 else mk("or", *ys)


def bxor(a, b):
    if a.op == "c" and b.op == "c":
        return c(a.a[0] ^ b.a[0])
    return mk("xor", *sorted((a, b), key=lambda t: t.id))


# ---- conditions -----------------------------------------------------------------
def pos(t):
    """t > 0, over the integers, in a canonical orientation."""
    k, d = lin_parts(t)
    if not d:
        return TRUE if k > 0 else FALSE
    g = 0
    import math
    for v in d.values():
        g = math.gcd(g, v)
    items = sorted(d.items(), key=lambda xv: xv[0].id)
    if g > 1:
        # sum(v_i x_i) + k > 0  <=>  sum(v_i/g x_i) > -k/g <=> sum + floor((k+g-1)/g) > 0 ... over Z
        # S*g > -k  <=> S > floor(-k/g)  <=> S - floor(-k/g) > 0
        k = -((-k) // g)
        items = [(x, v // g) for x, v in items]
    if items[0][1] < 0:
        # t>0  <=> not(t<=0) <=> not(1-t>0)
        return mk("not", mk("pos", lin_make(1 - k, {x: -v for x, v in items})))
    return mk("pos", lin_make(k, dict(items)))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return pos(add(sub(b, a), c(1)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    d = sub(a, b)
    k, m = lin_parts(d)
    if not m:
        return TRUE if k == 0 else FALSE
    items = sorted(m.items(), key=lambda xv: xv[0].id)
    if items[0][1] < 0:
        d = neg(d)
    return mk("eq0", d)


def not_(a):
    if a.op == "c":
        return c(1 - a.a[0])
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def gen_eq(a, b):
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("eq", x, y)


def trunc(bits, a, signed=False):
    if a.op == "c":
        v = a.a[0] & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return c(v)
    if a.op == "and" and a.a[1].op == "c" and 0 <= a.a[1].a[0] < (1 << (bits - (1 if signed else 0))):
        return a
    if not signed and a.op == "trunc" and a.a[0] <= bits:
        return a
    return mk("sext" if signed else "trunc", bits, a)


# ---- traversal ---------------------------------------------------------------------
def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f, memo=None):
    """bottom-up rewrite; f(t) -> t"""
    if memo is None:
        memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if not any(True for _ in kids(x)):
            r = f(x)
        else:
            na = []
            for y in x.a:
                if isinstance(y, T):
                    na.append(go(y))
                elif isinstance(y, tuple):
                    z = []
                    for w in y:
                        if isinstance(w, T):
                            z.append(go(w))
                        elif isinstance(w, tuple):
                            z.append(tuple(go(q) if isinstance(q, T) else q for q in w))
                        else:
                            z.append(w)
                    na.append(tuple(z))
                else:
                    na.append(y)
            if x.op == "lin":
                r = c(x.a[0])
                for (_, coef), (nt, _) in zip(x.a[1], na[1]):
                    r = add(r, mulc(nt, coef))
            elif x.op == "fld":
                r = fld(na[0], na[1])
            elif x.op == "upd":
                r = upd(*na)
            elif x.op == "eq0":
                r = eq(na[0], c(0))
            elif x.op == "pos":
                r = pos(na[0])
            elif x.op == "not":
                r = not_(na[0])
            elif x.op == "shr":
                r = shr(*na)
            elif x.op == "and":
                r = band(*na)
            elif x.op == "or":
                r = na[0]
                for y in na[1:]:
                    r = bor(r, y)
            else:
                r = mk(x.op, *na)
            r = f(r)
        memo[x] = r
        return r

    return go(t)


def strip_hv(t):
    """forget versioning of mutated objects"""
    return rebuild(t, lambda x: x.a[0] if x.op == "hv" else x)


def short(n):
    n = str(n)
    if n.startswith("<"):
        return n.replace("jubako::", "").replace("core::", "").replace("alloc::", "").replace("std::", "")
    p = n.split("::")
    return "::".join(p[-2:])


def skey(t):
    return show(t)


# shown for a value a rule did not find: an obligation which fails on it is not decided
NOTHING = "\x00nothing"


def show(t, depth=0):
    if t is None:
        return NOTHING
    if t._s is None:
        t._s = _show(t)
    return t._s


def _show(t):
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o == "sym":
        return str(a[0])
    if o == "fld":
        return "%s.%s" % (show(a[0]), a[1])
    if o == "agg":
        nm = short(a[0]) if a[0] != "()" else ""
        if a[1]:
            nm = a[1]
        its = agg_items(t)
        if len(its) > 40:
            return "%s{..%d}" % (nm, len(its))
        return "%s{%s}" % (nm, ", ".join("%s:%s" % (k, show(v)) for k, v in its))
    if o == "lin":
        s = []
        for x, v in sorted(a[1], key=lambda xv: show(xv[0])):
            s.append(("+" if v > 0 else "-") + ("" if abs(v) == 1 else "%d*" % abs(v)) + show(x))
        if a[0]:
            s.append("%+d" % a[0])
        r = "".join(s)
        return "(" + (r[1:] if r[0] == "+" else r) + ")"
    if o == "call":
        return "%s%s(%s)" % (short(a[0]), "#%d" % a[2] if a[2] else "", ", ".join(show(x) for x in a[1]))
    if o == "hv":
        return "%s!%s%s" % (show(a[0]), short(a[1]).split("::")[-1], "#%d" % a[2] if a[2] else "")
    if o == "upd":
        return "%s[%s:=%s]" % (show(a[0]), a[1], show(a[2]))
    if o == "ref":
        return "&%s%s" % (a[0], "".join("." + str(p) for p in a[1]))
    if o == "pl":
        return "%s::%s.%s" % (show(a[0]), a[1], a[2])
    if o == "pos":
        return "(%s > 0)" % show(a[0])
    if o == "eq0":
        return "(%s == 0)" % show(a[0])
    if o == "not":
        return "!%s" % show(a[0])

    if o == "enc":
        return "%s%s(%s)" % (a[1], show(a[0]), show(a[2]))
    if o == "dec":
        return "%s%s%s(%s)" % ("i" if a[2] else "u", a[1], show(a[0]), show(a[3]))

    def sh(x):
        if isinstance(x, T):
            return show(x)
        if isinstance(x, tuple):
            return "(" + ",".join(sh(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (o, ", ".join(sh(x) for x in a))
