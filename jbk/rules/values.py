"""Value stores: what is put in one, what it is called, where it lands on disk and how it is read back (C02, C03, C14)."""
from .props import *

VSC = "creator::directory_pack::value_store"
VSR = "reader::directory_pack::value_store"


def mth(cx, pat):
    ks = [k for k in cx.keys(pat) if not cx.fn(k).get("closure") and cx.fn(k).get("root")]
    if len(ks) != 1:
        raise Anchor("%s: %d functions" % (pat, len(ks)))
    return ks[0]


def base_fields(cx):
    """names of the fields of the common part of value stores: data, keys, size, done, idx"""
    r = {}
    for f in adt(cx, "BaseValueStore", VSC)["variants"][0]["fields"]:
        n, t = f[0], f[1]
        if re.match(r"alloc::vec::Vec<\(", t):
            r["data"] = n
        elif re.match(r"alloc::vec::Vec<usize>", t):
            r["keys"] = n
        elif t.endswith("::Size"):
            r["size"] = n
        elif t == "bool":
            r["done"] = n
        elif "Option<" in t:
            r["idx"] = n
    if set(r) != {"data", "keys", "size", "done", "idx"}:
        raise Anchor("BaseValueStore: fields %s" % r)
    return r


# ---- the number of bytes an integer needs -----------------------------------------------------
def r_needed(cx, R):
    cx.rule(R, "needed_bytes(v) is the smallest number of bytes (at least one) that hold v")
    ks = [k for k in cx.keys(r"bases::needed_bytes::<") if re.search(r" \[[ui](8|16|32|64|128|size)\]$", k)]
    if not ks:
        raise Anchor("needed_bytes: not used")
    n = 0
    late = []
    for k, t in [(k, t) for k in ks for t in cx.traces(k)]:
        if t.kind != "ret":
            continue
        ls = [e for e in t.effs if e.kind == "loop"]
        if len(ls) != 1 or len(ls[0].x["iters"]) != 1:
            late.append("%s: how it counts" % k)
            continue
        ini, it = ls[0].x["init"], ls[0].x["iters"][0]
        v = [x for x, y in ini.items() if unext(y) is A[0]]
        cnt = [x for x, y in ini.items() if y.op == "c"]
        if len(v) != 1 or len(cnt) != 1:
            late.append("%s: how it counts" % k)
            continue
        v, cnt = v[0], cnt[0]
        nv_ = it.next.get(v)
        sh = [s for s in range(1, 15) if all(evs(nv_, {v: x}) == x >> s for x in (1 << 14, (1 << 14) - 1, 0x1234, 1))]
        cx.ob(R, k, "a byte at a time", sh == [8] and evs(it.next.get(cnt), {cnt: 5}) == 6, "each step drops %s bits and counts %s" % (sh, show(it.next.get(cnt))))
        # the loop ends exactly when nothing is left, and goes on exactly when something is
        cx.ob(R, k, "goes on while bytes are left", not consistent(it.bnd, it.facts, {v: 0}) and consistent(it.bnd, it.facts, {v: 1}), "the count goes on although nothing is left, or stops early")
        cx.ob(R, k, "ends when none is left", consistent(t.bnd, t.facts, {v: 0}) and not consistent(t.bnd, t.facts, {v: 1}), "the count ends although bytes are left")
        r = t.val
        good = []
        ini0 = evs(ini[cnt], {})
        for j in range(0, 9):
            env = {cnt: ini0 + j, v: 0}
            if not consistent(t.bnd, t.facts, env):
                continue
            x = evs(r, env)
            if x is None and isagg(r):
                x = sizes(cx).get(r.a[1])
            if x is None:
                x = evs(mk("discr", r), env)
            good.append((max(1, j), x))
        if any(x is None for _, x in good):
            late.append("%s: what it answers" % k)
            continue
        n += len(good)
        cx.ob(R, k, "count", all(a == b for a, b in good), "answers %s" % ", ".join("%s for %d byte(s)" % (b, a) for a, b in good if a != b))
    if late:
        raise Anchor(late[0])
    if not n:
        raise Anchor("%s: no answer" % k)


def unext(v, bits=64):
    """v without its conversions; those keeping less than `bits` bits stay"""
    while v is not None and v.op in ("zext", "trunc") and isinstance(v.a[-1], T) and (v.op != "trunc" or v.a[0] >= bits):
        v = v.a[-1]
    return v


# ---- adding values --------------------------------------------------------------------------------
def r_added(cx, R):
    cx.rule(R, "a value given to a store is kept whole under the number it is handed out with; an indexed store gives the number of an equal value or a new one, and counts its bytes")
    B = base_fields(cx)
    for ty in ("PlainValueStore", "IndexedValueStore"):
        k = mth(cx, VSC + "::" + ty + r"::add_value")
        n = 0
        for t in cx.traces(k):
            if t.kind != "ret":
                continue
            n += 1
            o = strip0(final(t, A[0]))
            d0, d1 = fld(strip0(A[0]), B["data"]), fld(o, B["data"])
            k0, k1 = fld(strip0(A[0]), B["keys"]), fld(o, B["keys"])
            s0, s1 = fld(strip0(A[0]), B["size"]), fld(o, B["size"])
            if d1.op == "push":
                x = d1.a[1]
                cx.ob(R, k, "kept whole", d1.a[0] is d0 and isagg(x) and agg_items(x)[0][1] is A[1], "what is kept is %s" % show(x))
                cx.ob(R, k, "its number", t.val is mk_len(d0), "it is handed out as %s" % show(t.val))
                cx.ob(R, k, "its key", k1.op == "push" and k1.a[0] is k0 and k1.a[1] is mk_len(d0), "its key is not its position")
                if ty == "IndexedValueStore":
                    cx.ob(R, k, "its bytes", s1 is add(s0, mk_len(A[1])), "the size of the store becomes %s" % show(s1))
                continue
            if d1 is not d0 or k1 is not k0:
                raise Anchor("%s: what happens to the values" % k)
            # an existing value: equality must be known
            eqs = [x for x, b in t.bnd.items() if b[0] == 0 and b[1] == 0 and contains(x, lambda y: y is A[1]) and contains(x, lambda y: y is d0)]
            crets = [e for e in flat(t.effs) if e.kind == "cret" and contains(e.args[0], lambda y: y is A[1])]
            if eqs:
                lvs = {y for x in eqs for y in walk(x) if y.op == "idx" and y.a[0] is d0}
                cx.ob(R, k, "an equal one", len(lvs) == 1, "no equality with one value")
            elif crets:
                # found by a closure: it answers whether the values are equal
                cx.ob(R, k, "an equal one", all(iseq(e.args[0], A[1]) for e in crets), "a value is taken for an existing one when %s" % show(crets[0].args[0]))
                if not any(e.kind == "call" and re.search(r"::position(_any|_first)?$", e.name) for e in flat(t.effs)):
                    raise Anchor("%s: how an existing value is searched" % k)
            else:
                cx.ob(R, k, "an equal one", False, "an existing value is used for another one: nothing tells they are equal")
            cx.ob(R, k, "size unchanged", s1 is s0, "the size of the store becomes %s" % show(s1))
        if not n:
            raise Anchor("%s: no path" % k)


def strip0(v):
    n = fld(v, "0")
    return n if False else v


def iseq(x, a):
    """x says (exactly) that a equals something"""
    if x.op == "eq0" and len(x.a) == 1 and x.a[0].op == "lin":
        return any(y is a for y, _ in x.a[0].a[1])
    return x.op == "eq" and any(y is a for y in x.a) or x.op == "eq" and len(x.a) == 2 and x.a[1] is c(0) and x.a[0].op == "lin" and contains(x.a[0], lambda y: y is a)


# ---- numbering at finalisation ---------------------------------------------------------------------
def loops_of(t):
    return [e for e in t.effs if e.kind == "loop" and e.x["iters"] and any(i.next for i in e.x["iters"])]


def posvar(l, seq):
    """(position variable, key term) of a loop over every element of seq"""
    for x, y in l.x["init"].items():
        if y is c(0) and all(i.next.get(x) is add(x, c(1)) for i in l.x["iters"]):
            # bounded by the length
            if all((range_of(i.bnd, sub(mk_len(seq), x))[0] or 0) >= 1 for i in l.x["iters"]):
                return x
    return None


def same_known(i, p, q):
    """is something p known, as a whole, to be equal to something q"""
    for z, (lo, hi, ex) in i.bnd.items():
        if lo == 0 and hi == 0 and z.op == "lin":
            n, m = lin_parts(z)
            if n == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
                a, b = list(m)
                if p(a) and q(b) or p(b) and q(a):
                    return True
    for f, v in i.facts.items():
        if not v or f.op != "eq" or len(f.a) != 2:
            continue
        a, b = f.a
        if p(a) and q(b) or p(b) and q(a):
            return True
        for a, b in ((a, b), (b, a)):
            # as wholes: an optional value equal to Some(y) holds y
            if isagg(a) and a.a[1] == "Some" and not isagg(b):
                y, z = agg_items(a)[0][1], mk("pl", b, "Some", "0")
                if p(y) and q(z) or p(z) and q(y):
                    return True
    return False


def numbering(t, k, B):
    """the loop which numbers the values: (loop, key, element, keys, position)"""
    ls = [l for l in loops_of(t) if any(b_place(l, x, B) for x in l.x["init"])]
    if len(ls) != 1:
        raise Anchor("%s: how values are numbered" % k)
    l = ls[0]
    d0 = fld(A[0], B["data"])
    K, E, keys, P = None, None, None, None
    for x, y in l.x["init"].items():
        b = unwrap(y)
        if b.op == "idx" and b.a[0] is d0:
            kk = b.a[1]
            # the element of the key at the current position
            ky = l.x["init"].get(kk, kk)
            if ky.op == "idx" and contains(ky.a[0], lambda z: z is fld(A[0], B["keys"])) and ky.a[1].op == "lv":
                changed = any(i.next.get(x) is not x and i.next.get(x) is not None and i.next[x].op == "upd" for i in l.x["iters"])
                if changed:
                    K, E, keys, P = kk, x, ky.a[0], ky.a[1]
    if K is None:
        raise Anchor("%s: which value is numbered" % k)
    return l, K, E, keys, P


def r_ids(cx, R):
    cx.rule(R, "when a store is finalised every value gets the place it is written at: in a plain store the sum of the bytes of the values before it (equal values share one place), in an indexed "
               "store its rank; values are written in that same order, each as many times as it has a place")
    B = base_fields(cx)
    late = []
    done = 0
    for ty in ("PlainValueStore", "IndexedValueStore"):
        k = mth(cx, VSC + "::" + ty + r"::finalize$")
        for t in cx.traces(k):
            if t.kind != "ret":
                continue
            o = final(t, A[0])
            l, K, E, keys, P = numbering(t, k, B)
            d0 = fld(A[0], B["data"])
            cx.ob(R, k, "from the first", l.x["init"].get(P) is c(0) and all(i.next.get(P) is add(P, c(1)) for i in l.x["iters"]), "the values are not visited one after the other from the first")
            if not any((range_of(i.bnd, sub(mk_len(keys), P))[0] or 0) >= 1 for i in l.x["iters"]):
                late.append("%s: how many values are numbered" % k)
            S = None
            for i in l.x["iters"]:
                e2 = i.next.get(E)
                if e2 is None or e2 is E:
                    cx.ob(R, k, "every value is numbered", False, "a value passes without a place")
                    continue
                if e2.op != "upd" or e2.a[0] is not E:
                    raise Anchor("%s: what changes in a value" % k)
                cx.ob(R, k, "only its place changes", e2.a[1] != "0", "the bytes of a value are changed")
                x = e2.a[2]
                if x.op == "lv":
                    S = x
                    nx = i.next.get(x)
                    if nx is None:
                        raise Anchor("%s: the next place" % k)
                    ini = l.x["init"].get(x)
                    cx.ob(R, k, "the first place", ini is c(0), "the first place is %s" % show(ini))
                    ln = mk_len(fld(E, "0"))
                    want = add(x, ln) if ty == "PlainValueStore" else add(x, c(1))
                    if nx is not want and not known_len(nx, E):
                        late.append("%s: the next place: %s" % (k, show(nx)))
                    cx.ob(R, k, "the next place", nx is want, "after a value placed at %s the next place is %s" % (show(x), show(nx)))
                    if K.op == "lv":
                        cx.ob(R, k, "it keeps its key", i.next.get(K) in (K, None), "its key becomes %s" % show(i.next.get(K)))
                    done += 1
                else:
                    # shares the place of an equal value
                    js = [y for y in walk(x) if y.op == "fld" and y.a[0].op == "idx"]
                    j = js[0].a[0].a[1] if x.op == "fld" and x.a[0].op == "idx" and contains(x.a[0].a[0], lambda z: z is d0) else None
                    if j is None:
                        late.append("%s: place %s" % (k, show(x)[:100]))
                        continue
                    eqk = same_known(i, lambda y: y is fld(E, "0"), lambda y: y.op == "fld" and y.a[1] == "0" and y.a[0].op == "idx" and y.a[0].a[1] is j)
                    cx.ob(R, k, "a shared place is an equal value's", bool(eqk), "the place of another value is given although nothing tells they are equal")
                    st = [y for y in l.x["init"] if y.op == "lv" and i.next.get(y) is not None and S is not None and y is S]
                    for y in l.x["init"]:
                        if l.x["init"][y] is c(0) and y is not P:
                            cx.ob(R, k, "a shared place takes no room", i.next.get(y) is y, "the next place becomes %s" % show(i.next.get(y)))
                    cx.ob(R, k, "a shared place is written once", K.op == "lv" and i.next.get(K) is j, "its key does not become the one of the equal value (its bytes are written again and shift what follows)")
                    done += 1
            cx.ob(R, k, "finalised", fld(o, B["done"]) is c(1), "the store is not marked finalised")
            cx.ob(R, k, "its index", isagg(fld(o, B["idx"])) and fld(o, B["idx"]).a[1] == "Some" and agg_items(fld(o, B["idx"]))[0][1] is A[1], "the store does not keep its index")
            if ty == "PlainValueStore":
                cx.ob(R, k, "size", S is not None and fld(o, B["size"]) is S, "the size of the store is %s" % show(fld(o, B["size"])))
        # writing
        k = mth(cx, VSC + "::" + ty + r" as .*WritableTell>::write_data")
        w = 0
        for t in oks(cx.traces(k)):
            ls = [l for l in flat_loops(t.effs) if l.x["iters"]]
            wl = [l for l in ls if any(e.kind == "call" and match(e, WR) for i in l.x["iters"] for e in i.effs)]
            if not ls:
                continue
            if len(ls) != 1:
                raise Anchor("%s: loops" % k)
            if not wl:
                cx.ob(R, k, "values are written", False, "no value is written")
                continue
            l = wl[0]
            keys = fld(A[0], B["keys"])
            P = posvar(l, keys)
            if P is None:
                # loops over something else than every key
                late.append("%s: which values are written" % k)
                continue
            K = mk("idx", keys, P)
            dat = fld(mk("idx", fld(A[0], B["data"]), K), "0")
            for i in l.x["iters"]:
                ws = [e for e in i.effs if e.kind == "call" and match(e, WR)]
                last = [x for x in l.x["init"] if isagg(l.x["init"][x]) and l.x["init"][x].a[1] == "None"]
                if ws:
                    w += 1
                    cx.ob(R, k, "a value whole", len(ws) == 1 and ws[0].args[1] is dat, "what is written for a value is %s" % ", ".join(show(x.args[1]) for x in ws))
                    for x in last:
                        nx = i.next.get(x)
                        cx.ob(R, k, "remembers the last one", isagg(nx) and nx.a[1] == "Some" and agg_items(nx)[0][1] is K, "after a value is written the last one is said to be %s" % show(nx))
                else:
                    same_ = same_known(i, lambda y: y is K, lambda y: any(y is pl(x, "Some", "0") for x in last))
                    cx.ob(R, k, "nothing is skipped", ty == "PlainValueStore" and bool(same_), "a value is not written although it has its own place")
                    for x in last:
                        cx.ob(R, k, "a skipped one changes nothing", i.next.get(x) is x or same_, "after a skipped value the last one is said to be %s" % show(i.next.get(x)))
        if not w:
            late.append("%s: no write" % k)
    # numbers handed out
    k = mth(cx, VSC + r"::ValueStore::get$")
    n = 0
    vs = variants(cx, "ValueStore", VSC)
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        n += 1
        x = t.val
        okx = x.op == "fld" and x.a[1] == "1" and x.a[0].op == "idx" and x.a[0].a[1] is A[1] and x.a[0].a[0].op == "fld" and x.a[0].a[0].a[1] == B["data"]
        cx.ob(R, k, "the place of the value", okx, "the place given for a value is %s" % show(x))
        if okx:
            d = fld(x.a[0].a[0].a[0], B["done"])
            cx.ob(R, k, "only once finalised", t.facts.get(d) in (1, True) or (t.bnd.get(d) or (0,))[0] == 1, "a place is given before the store is finalised")
    if n < 2:
        late.append("%s: %d paths" % (k, n))
    if late:
        raise Anchor(late[0])
    if done < 2:
        raise Anchor("value stores: %d ways of numbering" % done)


def known_len(nx, E):
    """is nx arithmetic over loop variables and lengths (so that a difference is a difference)"""
    return all(y.op in ("lin", "lv", "c", "len", "fld", "mul", "min", "max") for y in walk(nx) if not contains(E, lambda z: z is y))


def unwrap(v):
    return v


def b_place(l, x, B):
    y = l.x["init"][x]
    return y.op == "idx" and y.a[0].op == "fld" and y.a[0].a[1] == B["data"] and y.a[0].a[0] is A[0]


# ---- tails ---------------------------------------------------------------------------------------------
def r_tails(cx, R):
    cx.rule(R, "a value store is described by its kind, and, indexed: the number of values, the width of offsets (enough for the size), the size, the end of every value but the last; the reader takes "
               "from it the same begin and end for every value, and reads exactly those bytes")
    B = base_fields(cx)
    late = []
    kp = mth(cx, VSC + r"::PlainValueStore as .*WritableTell>::serialize_tail")
    sz = fld(A[0], B["size"])
    keys = fld(A[0], B["keys"])
    n = 0
    for t in oks(cx.traces(kp, stop=[NB])):
        tb = written(t, snk(t))
        n += 1
        cx.ob(R, kp, "plain tail", [(evs(w, {}), x) for o, w, e, x in tb if isinstance(w, T)] == [(1, c(0)), (8, sz)] and len(tb) == 2, "the tail is %s" % show_table(tb))
    ki = mth(cx, VSC + r"::IndexedValueStore as .*WritableTell>::serialize_tail")
    for t in oks(cx.traces(ki, stop=[NB])):
        tb = written(t, snk(t))
        head = [x for x in tb if isinstance(x[1], T)]
        n += 1
        if len(head) != 4:
            cx.ob(R, ki, "indexed tail", False, "the tail is %s" % show_table(tb))
            continue
        nb = head[2][3]
        wd = nb.a[0] if nb.op == "discr" else nb
        isnb = wd.op == "call" and NB.search(str(wd.a[0]))
        if not isnb:
            late.append("%s: the width of offsets" % ki)
            continue
        good = [(evs(head[0][1], {}), head[0][3]) == (1, c(1)), (evs(head[1][1], {}), head[1][3]) == (8, mk_len(keys)), evs(head[2][1], {}) == 1, head[3][1] is nb and head[3][3] is sz]
        for g, what in zip(good, ("kind", "count", "width", "size")):
            cx.ob(R, ki, what, g, "the %s is written as %s" % (what, show_table(head)))
        cx.ob(R, ki, "wide enough", wd.a[1][0] is sz, "offsets are as wide as %s needs; they go up to the size" % show(wd.a[1][0]))
        loops_ = [x for x in tb if x[1] == "loop"]
        few = (lambda h: h is not None and h <= 0)(range_of(t.bnd, mk_len(keys))[1])
        if not loops_:
            cx.ob(R, ki, "offsets", few or t.E.decide(t.st, le(mk_len(keys), c(1))) is True, "no offset is written")
            continue
        l = loops_[0][2]
        for it, sub_ in loops_[0][3]:
            P = [x for x, y in l.x["init"].items() if y is c(0) and it.next.get(x) is add(x, c(1)) and any(contains(z, lambda y: y is x) for z in it.bnd)]
            acc = [x for x, y in l.x["init"].items() if y is c(0) and x not in P]
            if len(P) != 1 or len(acc) != 1 or len(sub_) != 1:
                late.append("%s: how offsets are written" % ki)
                continue
            P, acc = P[0], acc[0]
            ln = mk_len(fld(mk("idx", fld(A[0], B["data"]), mk("idx", keys, P)), "0"))
            w, v = sub_[0]
            cx.ob(R, ki, "the end of each value", w is nb and plain(v)[1] is add(acc, ln) and it.next.get(acc) is add(acc, ln), "what is written is %s on %s" % (show(plain(v)[1]), show(w)))
            mb = range_of(it.bnd, sub(mk_len(keys), P))[0]
            cx.ob(R, ki, "all values but the last", mb == 2, "offsets are written for the values up to %s before the end" % mb)
    if n < 2:
        raise Anchor("value store tails: %d" % n)
    # the reader's side
    k = cx.m("ValueStoreBuilder", "parse", "Parsable")
    n = 0
    for t in oks(cx.traces(k)):
        v = okval(t)
        if not isagg(v) or len(agg_items(v)) != 2:
            raise Anchor("%s: what it gives" % k)
        b, size = [x for _, x in agg_items(v)]
        rs = [e for e in t.effs if e.kind == "call" and RD.search(e.name)]
        nm = [e.name.rsplit("::", 1)[-1] for e in rs]
        kd = mk("pl", rs[0].res, "Ok", "0")
        if not isagg(b):
            raise Anchor("%s: what it gives" % k)
        if nm[0] != "read_u8":
            raise Anchor("%s: the first thing read" % k)
        for j in range(4):
            if consistent(t.bnd, t.facts, {kd: j}):
                cx.ob(R, k, "kind %d" % j, {0: "Plain", 1: "Indexed"}.get(j) == b.a[1], "a store of kind %d is read as %s" % (j, b.a[1]))
        if b.a[1] == "Plain":
            n += 1
            cx.ob(R, k, "plain tail read", nm == ["read_u8", "read_u64"] and size is mk("pl", rs[1].res, "Ok", "0"), "read: %s; size: %s" % (nm, show(size)))
            continue
        n += 1
        cx.ob(R, k, "indexed tail read", nm == ["read_u8", "read_u64", "read_u8", "read_usized"], "read: %s" % nm)
        if len(rs) != 4:
            continue
        cnt, wid, dsz = [mk("pl", e.res, "Ok", "0") for e in rs[1:]]
        ws = sizes(cx)
        wa = rs[3].args[1]
        wv = ws.get(wa.a[1]) if isagg(wa) else None
        if wv is None:
            late.append("%s: width of the size" % k)
            continue
        cx.ob(R, k, "width", (t.bnd.get(wid) or (None, None))[:2] == (wv, wv), "the size is read on %d bytes when the width is %s" % (wv, t.bnd.get(wid)))
        cx.ob(R, k, "size read", size is dsz, "the size given is %s" % show(size))
        vec = agg_items(b)[0][1]
        ls = [l for l in flat_loops(t.effs) if l.x["iters"]]
        pushes = [e for e in t.effs if e.kind == "call" and e.name.endswith("::push")]
        cx.ob(R, k, "ends with the size", bool(pushes) and pushes[-1].args[1] is dsz and vec.op == "push" and vec.a[1] is dsz, "the last offset is not the size")
        if not ls:
            cx.ob(R, k, "offsets read", t.E.decide(t.st, le(cnt, c(0))) is True, "no offset is read")
            continue
        if len(ls) != 1:
            late.append("%s: loops" % k)
            continue
        l = ls[0]
        P = [x for x, y in l.x["init"].items() if y is c(0) and all(i.next.get(x) is add(x, c(1)) for i in l.x["iters"])]
        if len(P) != 1:
            late.append("%s: how many offsets are read" % k)
            continue
        P = P[0]
        for i in l.x["iters"]:
            got = [e for e in i.effs if e.kind == "call" and RD.search(e.name)]
            put = [e for e in i.effs if e.kind == "call" and re.search(r"::(write|push)$", e.name)]
            if len(put) != 1:
                late.append("%s: what is kept of an offset" % k)
                continue
            x = put[0].args[1]
            if not got:
                # only the first offset is not read
                fl = [y for y in l.x["init"] if l.x["init"][y] in (c(1), c(0)) and y is not P and (i.facts.get(y) is not None or y in i.bnd)]
                first_ = any(once(l, i, y) for y in fl) or any(z is P and b[1] is not None and b[1] <= 0 for z, b in i.bnd.items())
                if not fl and not first_:
                    late.append("%s: which offset is not read" % k)
                cx.ob(R, k, "the first offset", x is c(0) and first_, "an offset which is not the first is taken as %s" % show(x))
            else:
                for pv, inside in ((1, True), (69999, True), (70000, False), (2 ** 34, False)):
                    cx.ob(R, k, "offsets up to the count", consistent(i.bnd, i.facts, {cnt: 70000, P: pv}) is inside,
                          "of 70000 values, the offset %d is %s" % (pv, "not read" if inside else "read"))
                a = got[0].args[1]
                cx.ob(R, k, "an offset", len(got) == 1 and x is mk("pl", got[0].res, "Ok", "0") and got[0].name.endswith("read_usized") and isagg(a) and ws.get(a.a[1]) == wv, "an offset is taken as %s" % show(x))
    if n < 9:
        late.append("%s: %d ways" % (k, n))
    # data region
    k = cx.m("ValueStore", "finalize", "DataBlockParsable")
    n = 0
    for t in oks(cx.traces(k, stop=[r"::cut_check$"])):
        cs = [e for e in t.effs if e.kind == "call" and e.name.endswith("::cut_check")]
        if len(cs) != 1:
            raise Anchor("%s: the region of the data" % k)
        n += 1
        a = cs[0].args
        szt = fld(A[0], "1")
        cx.ob(R, k, "the data before the tail", a[2] is szt and a[1] is sub(sub(A[1], szt), c(4)) and isagg(a[3]) and a[3].a[1] == "Crc32", "the data are the %s bytes at %s" % (show(a[2]), show(a[1])))
    if not n:
        raise Anchor("%s: no path" % k)
    # values
    for ty in ("PlainValueStore", "IndexedValueStore"):
        k = mth(cx, VSR + "::" + ty + r"::get_data")
        n = 0
        rf = [f for f, s in [(f[0], f[1]) for f in adt(cx, ty, VSR)["variants"][0]["fields"]] if "Reader" in s]
        of = [f for f, s in [(f[0], f[1]) for f in adt(cx, ty, VSR)["variants"][0]["fields"]] if "Vec<" in s]
        if len(rf) != 1 or (ty[0] == "I") != (len(of) == 1):
            raise Anchor("%s: fields" % ty)
        for t in oks(cx.traces(k, stop=[r"CheckReader::get_slice$"])):
            gs = [e for e in t.effs if e.kind == "call" and e.name.endswith("CheckReader::get_slice")]
            if len(gs) != 1:
                raise Anchor("%s: what is read" % k)
            n += 1
            e = gs[0]
            sized = t.E.decide(t.st, eq(mk("discr", A[2]), c(1)))
            if ty[0] == "P":
                cx.ob(R, k, "bytes", base_of(e.args[0]) in (fld(A[0], rf[0]), A[0]) and e.args[1] is A[1] and e.args[2] is pl(A[2], "Some", "0"), "%s bytes at %s are read" % (show(e.args[2]), show(e.args[1])))
            else:
                offs = fld(A[0], of[0])
                b = mk("idx", offs, A[1])
                want = pl(A[2], "Some", "0") if sized else sub(mk("idx", offs, add(A[1], c(1))), b)
                if sized is None:
                    raise Anchor("%s: with or without a size" % k)
                cx.ob(R, k, "bytes%s" % (" (sized)" if sized else ""), e.args[1] is b and e.args[2] is want, "%s bytes at %s are read" % (show(e.args[2]), show(e.args[1])))
            cx.ob(R, k, "what is given", contains(okval(t), lambda y: y is e.res) and not contains(okval(t), lambda y: y.op == "slice"), "what is given is %s" % show(okval(t)))
        if not n:
            raise Anchor("%s: no path" % k)
    if late:
        raise Anchor(late[0])


def base_of(v):
    return v


def snk(t):
    for e in flat(t.effs):
        if e.kind == "call" and e.args and match(e, WR):
            return base_buf(e.args[0])
    raise Anchor("a path that writes nothing")


def once(l, i, y):
    """flag y: true at first, and never again once this iteration is taken"""
    v0 = l.x["init"][y]
    f = i.facts.get(y)
    b = i.bnd.get(y)
    holds = (f is not None and int(bool(f)) == v0.a[0]) or (b is not None and b[0] == b[1] == v0.a[0])
    if not holds:
        return False
    nx = i.next.get(y)
    if nx is None or nx.op != "c" or nx.a[0] == v0.a[0]:
        return False
    return all(j.next.get(y) in (y, nx, None) for j in l.x["iters"])


# ---- arrays in an entry -----------------------------------------------------------------------------
def r_split(cx, R):
    cx.rule(R, "a value given for an entry becomes the value of its own column, unchanged; an array keeps its length, its first bytes as inline prefix and gives all the others to the column's store")
    k = mth(cx, r"ValueTransformer<.*Iterator>::next$|ValueTransformer<.*Iterator>::next \[")
    cv = variants(cx, "Value", "common")
    n = 0
    late = []
    for t in cx.traces(k, stop=[r"StoreHandle::add_value$"]):
        if t.kind != "ret" or not isagg(t.val) or t.val.a[1] != "Some":
            continue
        n += 1
        nm, v = [x for _, x in agg_items(agg_items(t.val)[0][1])]
        rem = [e for e in t.effs if e.kind == "call" and e.name.endswith("::remove")]
        if len(rem) != 1 or not isagg(v) or nm.op != "pl":
            raise Anchor("%s: which value is taken" % k)
        cx.ob(R, k, "the value of the column", rem[0].args[1] is nm, "the value of %s is given to %s" % (show(rem[0].args[1]), show(nm)))
        col, kind = nm.a[0], nm.a[1]
        val = pl(rem[0].res, "Some", "0")
        out = v.a[1]
        x = agg_items(v)[0][1]
        src = [y for y in cv if t.E.decide(t.st, eq(mk("discr", val), c(cv[y][0]))) is True]
        if len(src) != 1:
            raise Anchor("%s: the kind of value" % k)
        src = src[0]
        if out in ("Unsigned", "Signed", "Content", "UnsignedWord", "SignedWord"):
            cx.ob(R, k, "%s as %s" % (src, out), src == out and x is pl(val, src, "0"), "a value of kind %s becomes %s" % (src, show(v)))
            continue
        data = pl(val, "Array", "0")
        ad = [e for e in t.effs if e.kind == "call" and e.name.endswith("StoreHandle::add_value")]
        if src != "Array" or len(ad) != 1:
            late.append("%s: array" % k)
            continue
        cx.ob(R, k, "%s: in the column's store" % out, ad[0].args[0] is pl(col, kind, "store_handle"), "its bytes are given to the store %s" % show(ad[0].args[0]))
        if out == "IndirectArray":
            cx.ob(R, k, "%s: whole" % out, ad[0].args[1] is data and x is ad[0].res, "what is stored is %s" % show(ad[0].args[1]))
            continue
        if not isagg(x):
            late.append("%s: array" % k)
            continue
        f = dict(agg_items(x))
        cut = mk_min(pl(col, kind, "fixed_array_len"), mk_len(data))
        st = ad[0].args[1]
        cx.ob(R, k, "%s: length" % out, f.get("size") is mk_len(data), "its length is said to be %s" % show(f.get("size")))
        cx.ob(R, k, "%s: key" % out, f.get("value_id") is ad[0].res, "its key is %s" % show(f.get("value_id")))
        pre = f.get("data")
        if pre is not None and pre.op == "pl" and pre.a[0].op == "call" and "try_from" in pre.a[0].a[0]:
            pre = pre.a[0].a[1][0]
        pr, sr = span(pre, data), span(st, data)
        if pr is None or sr is None:
            late.append("%s: how an array is split" % k)
            continue
        smp = [(a, b) for a in (0, 1, 2, 5, 31) for b in (0, 1, 2, 4, 31, 40)]
        smp = [(a, b, {pl(col, kind, "fixed_array_len"): a, mk_len(data): b}) for a, b in smp]
        smp = [x for x in smp if consistent(t.bnd, {}, x[2])]
        got = [tuple(evs(y, e) for y in pr + sr) for a, b, e in smp]
        if not smp or any(None in x for x in got):
            late.append("%s: where an array is split: %s" % (k, show(pr[1])))
            continue
        cx.ob(R, k, "%s: split" % out, all(x[0] == 0 and x[2] == x[1] and x[3] == b for x, (a, b, e) in zip(got, smp)), "the prefix is [%s, %s) and what is stored [%s, %s) of it" % tuple(map(show, pr + sr)))
        cx.ob(R, k, "%s: prefix" % out, all(x[1] == min(a, b) for x, (a, b, e) in zip(got, smp)), "the prefix is the first %s bytes" % show(pr[1]))
        m = re.match(r"Array(\d)$", out)
        if m:
            cx.ob(R, k, "%s: prefix length" % out, all(x[1] == int(m.group(1)) for x in got), "kept with a prefix of %s bytes" % m.group(1))
    # a value taken is given: only what no column takes is not
    takes = {"Array": ("Array",), "IndirectArray": ("Array",), "UnsignedInt": ("Unsigned", "UnsignedWord"), "SignedInt": ("Signed", "SignedWord"), "ContentAddress": ("Content",)}
    seen = set()
    for t in cx.traces(k, stop=[r"StoreHandle::add_value$"]):
        for e in t.effs:
            if e.kind != "loop":
                continue
            for it in e.x["iters"]:
                if id(it) in seen:
                    continue
                seen.add(id(it))
                for r in (x for x in it.effs if x.kind == "call" and x.name.endswith("::remove") and len(x.args) == 2 and x.args[1].op == "pl"):
                    col, kind = r.args[1].a[0], r.args[1].a[1]
                    val = pl(r.res, "Some", "0")
                    left = [y for y in takes.get(kind, ()) if y in cv and consistent(it.bnd, {}, {mk("discr", val): cv[y][0]})]
                    cx.ob(R, k, "%s: the value taken is given" % kind, not left, "a value of kind %s is dropped" % ", ".join(left))
    if late:
        raise Anchor(late[0])
    if n < 8:
        raise Anchor("%s: %d ways" % (k, n))


def mk_min(a, b):
    return mk("min", a, b)


def span(v, data):
    if v is data:
        return c(0), mk_len(data)
    if v is not None and v.op == "slice" and v.a[0] is data:
        return v.a[1], v.a[2]
    if isagg(v, "[]") and all(x is mk("idx", data, c(n)) for n, (_, x) in enumerate(agg_items(v))):
        return c(0), c(len(agg_items(v)))
    return None


def r_resolve(cx, R):
    cx.rule(R, "an array is given back as its prefix followed by the rest of its length from its store; other values as they are")
    k = cx.m("Array", "resolve_to_vec", "") if any("raw_value" in x for x in cx.keys(r"raw_value::Array::resolve_to_vec")) else None
    k = mth(cx, r"raw_value::Array::resolve_to_vec$")
    fs = {f[0] for f in adt(cx, "Array", "raw_value")["variants"][0]["fields"]}
    if not {"size", "base", "base_len", "extend"} <= fs:
        raise Anchor("reader Array: fields")
    n = 0
    for t in oks(cx.traces(k)):
        n += 1
        ws = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"::(extend_from_slice|extend|push|insert\w*)$", e.name) and base_buf(unref(e.args[0])) is A[1]]
        ext = t.E.decide(t.st, eq(mk("discr", F(A[0], "extend")), c(1)))
        siz = t.E.decide(t.st, eq(mk("discr", F(A[0], "size")), c(1)))
        if not ws:
            cx.ob(R, k, "prefix", False, "the prefix is not given")
            continue
        p = ws[0].args[1]
        bl = F(A[0], "base_len")
        cx.ob(R, k, "prefix", p.op == "slice" and contains(p.a[0], lambda y: y is F(A[0], "base")) and p.a[1] is c(0) and p.a[2] is bl, "the prefix given is %s" % show(p))
        gd = [e for e in flat(t.effs) if e.kind == "call" and e.name.endswith("::get_data")]
        if ext is None:
            raise Anchor("%s: with or without a store" % k)
        if not ext:
            cx.ob(R, k, "nothing else", len(ws) == 1, "more than the prefix is given")
            continue
        cx.ob(R, k, "the rest", len(ws) == 2 and len(gd) == 1, "the rest of the array is not given")
        if len(ws) != 2 or len(gd) != 1:
            continue
        e = gd[0]
        ex = pl(F(A[0], "extend"), "Some", "0")
        cx.ob(R, k, "from its store", contains(e.args[0], lambda y: y is F(ex, "store")) and e.args[1] is F(ex, "value_id"), "the rest is read at %s" % show(e.args[1]))
        want = sub(pl(F(A[0], "size"), "Some", "0"), bl)
        got = e.args[2]
        if siz is None:
            raise Anchor("%s: with or without a length" % k)
        cx.ob(R, k, "the rest of its length", (isagg(got) and got.a[1] == "Some" and agg_items(got)[0][1] is want) if siz else (isagg(got) and got.a[1] == "None" or got is F(A[0], "size")), "the rest is %s" % show(got))
        cx.ob(R, k, "after the prefix", ws[1].args[1] is mk("pl", e.res, "Ok", "0"), "what follows the prefix is %s" % show(ws[1].args[1]))
    if n < 2:
        raise Anchor("%s: %d ways" % (k, n))
    rv = variants(cx, "RawValue", "raw_value")
    for m in ("get", "as_unsigned", "as_signed", "as_content", "as_vec"):
        k = mth(cx, r"raw_value::RawValue::%s$" % m)
        n = 0
        for t in cx.traces(k, stop=[r"raw_value::Array::resolve_to_vec$"]):
            if t.kind != "ret" or t in errs([t]):
                continue
            n += 1
            V = [x for x in rv if t.E.decide(t.st, eq(mk("discr", A[0]), c(rv[x][0]))) is not False]
            if len(V) != 1:
                raise Anchor("%s: which kind" % k)
            V = V[0]
            v = okval(t) if m in ("get", "as_vec") else t.val
            if m == "get":
                want = {"U": "Unsigned", "I": "Signed", "C": "Content", "A": "Array"}[V[0]]
                cx.ob(R, k, "kind of %s" % V, isagg(v) and v.a[1] == want, "%s is given as %s" % (V, show(v)))
                if not isagg(v):
                    continue
                v = agg_items(v)[0][1]
            if V == "Array":
                rs = [e for e in t.effs if e.kind == "call" and e.name.endswith("resolve_to_vec")]
                cx.ob(R, k, "array", len(rs) == 1 and rs[0].args[0] is pl(A[0], "Array", "0") and v.op == "hv" and empty(rs[0].args[1]), "an array is given as %s" % show(v))
            else:
                cx.ob(R, k, "value of %s" % V, v is pl(A[0], V, "0"), "%s is given as %s" % (V, show(v)))
        if not n:
            raise Anchor("%s: no path" % k)


def empty(v):
    v = unref(v)
    return v.op == "vec" or v.op == "call" and str(v.a[0]).endswith("::new") or v.op in ("vec0",) or show(v) == "vec(0)"


def r_parsers(cx, R):
    cx.rule(R, "integers are read little-endian on their own number of bytes, sign extended when signed, and a sequential reader moves past exactly what it reads")
    n = 0
    late = None
    for tr, i in (("Parser", 1), ("RandomParser", 2)):
        for k in cx.keys(r"^<Self as jubako::bases::parsing::%s>::read_[ui](8|16|32|64|sized)\b" % tr):
            m = re.search(r"::read_([ui])(\w+)", k)
            sg, w = m.group(1) == "i", m.group(2)
            width = mk("discr", A[i]) if w == "sized" else c(int(w) // 8)
            for t in oks(cx.traces(k)):
                n += 1
                cs = [e for e in t.effs if e.kind == "call" and e.name.endswith("::read_slice")]
                if len(cs) != 1:
                    raise Anchor("%s: what is read" % k)
                a = list(cs[0].args)
                cx.ob(R, k, "bytes", a[-1] is width and (tr == "Parser" or a[1] is A[1]), "%s bytes are read" % show(a[-1]))
                v = okval(t)
                s = mk("pl", cs[0].res, "Ok", "0")
                x = v
                while x.op in ("sext", "trunc", "zext") and w == "8":
                    x = x.a[-1]
                if w == "8":
                    g = x is mk("idx", s, c(0)) and (v.op == "sext") == sg
                else:
                    while v.op in ("trunc", "ext") and v.a[0] >= 8 * (int(w) // 8 if w.isdigit() else 8):
                        v = v.a[1]
                    g = v.op == "dec" and v.a[0] is width and v.a[1] == "le" and bool(v.a[2]) == sg and v.a[3] in (s, mk("slice", s, c(0), width))
                    raw = bytes([0x81, 0x22, 0x93, 0x44, 0xA5, 0x66, 0xC7, 0xF8][:int(w) // 8 if w.isdigit() else 0])
                    got = evs(v, {mk("idx", s, c(j)): b for j, b in enumerate(raw)}) if raw else None
                    if got is not None:
                        g = got == int.from_bytes(raw, "little", signed=sg)
                    elif v.op != "dec":
                        late = "%s: what is made of the bytes: %s" % (k, show(v)[:100])
                        continue
                cx.ob(R, k, "value", g, "the value is %s" % show(v))
    if n < 16:
        raise Anchor("parsers: %d readers" % n)
    fs = [(f[0], f[1]) for f in adt(cx, "SliceParser", "bases::parsing")["variants"][0]["fields"]]
    fo = [f for f, s in fs if s == "usize"]
    fsl = [f for f, s in fs if "Cow" in s or "[u8]" in s]
    if len(fo) != 1 or len(fsl) != 1:
        raise Anchor("SliceParser: fields")
    pos, sl = fld(A[0], fo[0]), fld(A[0], fsl[0])
    for m in ("read_slice", "read_data", "skip"):
        k = cx.m("SliceParser", m, "Parser")
        j = 0
        for t in oks(cx.traces(k)):
            j += 1
            w = mk_len(A[1]) if m == "read_data" else A[1]
            o = final(t, A[0])
            cx.ob(R, k, "moves past", fld(o, fo[0]) is add(pos, w), "moves to %s" % show(fld(o, fo[0])))
            if m == "read_slice":
                v = okval(t)
                v = agg_items(v)[0][1] if isagg(v) else v
                cx.ob(R, k, "bytes", v.op == "slice" and v.a[0] is sl and v.a[1] is pos and v.a[2] is add(pos, w), "gives %s" % show(v))
            if m == "read_data":
                d = final(t, A[1])
                if d is not None and d.op == "slice":
                    cx.ob(R, k, "bytes", d.a[0] is sl and d.a[1] is pos and d.a[2] is add(pos, w), "gives %s" % show(d))
        if not j:
            raise Anchor("%s: no path" % k)
    if late:
        raise Anchor(late)


# ---- the stores of a pack -----------------------------------------------------------------------
KS = re.compile(r"StoreHandle::(key_size|get_idx|kind)$")


def r_pack(cx, R):
    cx.rule(R, "value stores, entry stores and indexes of a directory pack are kept in the order they are given, under the number told; before any column is sized every value store "
               "is finalised under its own number; the keys of a store are wide enough for every place it gives, and a column has the store and the key width of its own property")
    late = []
    DPC = "DirectoryPackCreator"
    # given
    for nm, pat in (("add_value_store", r"StoreHandle"), ("add_entry_store", r"EntryStoreTrait"), ("create_index", r"Index")):
        k = cx.m(DPC, nm)
        f = cx.fields(DPC, r"^alloc::vec::Vec<.*" + pat)
        if len(f) != 1:
            raise Anchor("%s: where they are kept" % k)
        f = f[0] if isinstance(f[0], str) else f[0][0]
        for t in cx.traces(k):
            if t.kind != "ret":
                continue
            v = fld(final(t, A[0]), f)
            good = v.op == "push" and v.a[0] is fld(A[0], f)
            cx.ob(R, k, "kept last", good, "the list becomes %s" % show(v)[:150])
            if not good:
                continue
            if nm == "create_index":
                x = v.a[1]
                ty = {"store_id": "EntryStoreIdx", "count": "EntryCount", "offset": "Word", "index_key": "PropertyIdx"}
                if not isagg(x):
                    late.append("%s: the index kept" % k)
                    continue
                fnn = cx.fn(k)
                par = {}
                for j in range(fnn["argc"]):
                    par.setdefault(cx.lib.types[fnn["locals"][j + 1]]["s"], []).append(A[j])
                for n_, _ in agg_items(x):
                    ft = [g[1] for g in adt(cx, "Index", "creator::directory_pack")["variants"][0]["fields"] if g[0] == n_]
                    c_ = par.get(ft[0] if ft else "", [])
                    if len(c_) == 1:
                        cx.ob(R, k, "index.%s" % n_, fld(x, n_) is c_[0], "the %s of the index is %s" % (n_, show(fld(x, n_))))
            else:
                cx.ob(R, k, "as given", v.a[1] is A[1], "what is kept is %s" % show(v.a[1]))
                if nm == "add_entry_store":
                    w = t.val
                    good = w is mk_len(fld(A[0], f)) or w is sub(mk_len(v), c(1)) or (w.op == "trunc" and w.a[0] == 32 and w.a[1] in (mk_len(fld(A[0], f)), sub(mk_len(v), c(1))))
                    cx.ob(R, k, "its number", good, "the number told is %s" % show(t.val))
    # finalised
    k = cx.m(DPC, "finalize")
    SH, EF, ESORT = r"StoreHandle::finalize$", r"EntryStoreTrait::finalize$", r"EntryStoreTrait::(sort|finalize|is_sorted)$"
    vsf, esf, ixf = [cx.field(DPC, r"^alloc::vec::Vec<.*" + p) for p in (r"StoreHandle", r"EntryStoreTrait", r"Index")]
    FD = "FinalizedDirectoryPackCreator"
    ov, oe, oi = [cx.field(FD, r"^alloc::vec::Vec<.*" + p) for p in (r"StoreHandle", r"WritableTell", r"Index")]
    n = 0
    for t in oks(cx.traces(k, stop=[SH])):
        r = each(cx, R, k, t, SH, fld(A[0], vsf), "every value store is finalised")
        cx.ob(R, k, "every value store is finalised", r is not None and r[0], "not every value store is finalised")
        at = [any(x.kind == "call" and re.search(SH, x.name) for x in flat([e])) for e in t.effs]
        bt = [any(x.kind == "call" and re.search(ESORT, x.name) for x in flat([e])) for e in t.effs]
        if r and True in at and True in bt:
            cx.ob(R, k, "before the entry stores", max(i for i, x in enumerate(at) if x) < min(i for i, x in enumerate(bt) if x), "an entry store is used before every value store is finalised")
        elif True not in bt:
            late.append("%s: entry stores" % k)
        if r:
            n += 1
            for e, _, sq, x in r[1]:
                pos = x.args[0].a[1] if x.args[0].op == "idx" else None
                v = x.args[1]
                if v.op == "trunc" and v.a[0] < 32 and pos is not None:
                    lim = 1 << v.a[0]
                    top = [range_of(i.bnd, v.a[1])[1] for i in e.x["iters"] if x in flat(i.effs)]
                    cut = [m for m in (lim, lim + 1, 4 * lim) if consistent(t.bnd, t.facts, {mk_len(fld(A[0], vsf)): m})]
                    cx.ob(R, k, "numbers are not cut", not cut or bool(top) and all(h is not None and h < lim for h in top), "with %s value stores, two of them have the same number" % (cut and cut[-1]))
                v = v.a[1] if v.op == "trunc" and v.a[0] >= 8 else v
                good = v is pos or (v in e.x["init"] and pos in e.x["init"] and e.x["init"][v] is c(0) and e.x["init"][pos] is c(0) and all(i.next.get(v) is add(v, c(1)) for i in e.x["iters"]))
                if pos is None:
                    late.append("%s: the number of a value store" % k)
                else:
                    cx.ob(R, k, "under its number", good, "the store at %s is finalised as number %s" % (show(pos), show(x.args[1])))
        o = okval(t)
        if not isagg(o):
            late.append("%s: what it returns" % k)
            continue
        cx.ob(R, k, "the value stores", fld(o, ov) is fld(A[0], vsf), "the value stores kept are %s" % show(fld(o, ov))[:100])
        cx.ob(R, k, "the indexes", fld(o, oi) is fld(A[0], ixf), "the indexes kept are %s" % show(fld(o, oi))[:100])
        es = fld(o, oe)
        ls = loops_calling(t, EF)
        ls = [(e, a) for e, a, _ in ls]
        if len(ls) != 1 or not contains(es, lambda y: y is fld(A[0], esf)) and es.op not in ("collect", "lv", "call"):
            late.append("%s: the entry stores kept" % k)
            continue
        e, at_ = ls[0]
        org = origins(t)
        for i in e.x["iters"]:
            x = [y for y in i.effs if y.kind == "call" and re.search(EF, y.name)]
            el = org(x[0].args[0])
            if len(x) != 1 or el.op != "idx":
                late.append("%s: which entry store is finalised" % k)
                continue
            v = visit(at_, e, el.a[0], org)
            if v is None:
                late.append("%s: whether every entry store is finalised" % k)
                continue
            cx.ob(R, k, "every entry store, in order", v[0] and base_obj(el.a[0]) is fld(A[0], esf) and (e.x["init"].get(el.a[1]) is c(0) and i.next.get(el.a[1]) is add(el.a[1], c(1))), "entry stores kept are not all of them in order")
    if not n:
        late.append("%s: value stores" % k)
    # a store knows its number, gives it
    B = base_fields(cx)
    k = cx.m("ValueStore", "get_idx")
    for t in cx.traces(k):
        if t.kind == "ret":
            cx.ob(R, k, "the number of a store", t.val.op == "fld" and t.val.a[1] == B["idx"] and contains(t.val, lambda y: y is A[0]), "the number given is %s" % show(t.val))
    # keys
    k = cx.m("ValueStore", "key_size")
    vs = variants(cx, "ValueStore", VSC)
    m = 0
    for t in cx.traces(k, stop=[NB]):
        if t.kind != "ret":
            continue
        w = which(t, A[0], vs)
        x = t.val
        if x.op == "discr":
            x = x.a[0]
        if w is None or not (x.op == "call" and NB.search(str(x.a[0]))):
            late.append("%s: the width of keys" % k)
            continue
        m += 1
        x = x.a[1][0]
        st = pl(A[0], w, "0")
        q = [fld(y, B[f]) if f == "size" else mk_len(fld(y, B[f])) for f in ("size", "data", "keys") for y in (st, strip_newtype(st), fld(st, "0"))]
        bad = None
        for v in (1, 2, 3, 255, 256, 257, 258, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1):
            # one value of v bytes; v values of one byte and more
            g = evs(x, {y: v if w == "Indexed" or j < 3 else 1 for j, y in enumerate(q)})
            if g is None:
                late.append("%s: width of keys from %s" % (k, show(x)[:80]))
                break
            need = v if w == "Plain" else v - 1
            if ubytes(g) is None or ubytes(g) < ubytes(need):
                bad = (v, g)
                break
        else:
            cx.ob(R, k, "wide enough (%s)" % w, True)
        if bad:
            cx.ob(R, k, "wide enough (%s)" % w, False, "with %s = %d keys are as wide as %d needs" % ("bytes" if w == "Plain" else "values", bad[0], bad[1]))
    if m < 2:
        late.append("%s: kinds" % k)
    # columns
    C = Columns(cx)
    m = 0
    for V, (i, fs) in C.vs.items():
        hs = [f for f, s in fs.items() if "StoreHandle" in s]
        if not hs:
            continue
        h = mk("pl", A[0], V, hs[0])
        for t in cx.traces(C.kf, stop=[NB, KS], assume=[(eq(mk("discr", A[0]), c(i)), True)]):
            if t.kind != "ret" or not isagg(t.val):
                continue
            m += 1
            ws = [x for _, x in leaves(t.val) if (x.op == "call" and "key_size" in str(x.a[0])) or (x.op == "discr" and x.a[0].op == "call" and "key_size" in str(x.a[0].a[0]))]
            hd = [x for _, x in leaves(t.val) if unref(x) is h]
            cx.ob(R, C.kf, "%s: keys of its store" % V, len(ws) == 1 and unref((ws[0].a[0] if ws[0].op == "discr" else ws[0]).a[1][0]) is h, "the key width of the column is %s" % ", ".join(show(x) for x in ws))
            cx.ob(R, C.kf, "%s: its store" % V, len(hd) == 1, "the column does not have the store of its property")
    if m < 2:
        late.append("%s: columns with a store" % C.kf)
    if late:
        raise Anchor(late[0])
