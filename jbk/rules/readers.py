"""From the parsed layout to the value of an entry: where a property is, which entry is read, which property a name gives (C02, C03, C14)."""
from .values import *
from .layout import rd_u

LAY = "reader::directory_pack"


def kind_is(cx, st, x, name, V):
    """True/False/None: is x (a property kind) the variant `name`, by what is known in st (a trace or an iteration)"""
    i = V.index(name)
    for f, b in st.facts.items():
        if f.op == "eq" and len(f.a) == 2:
            for p, q in (f.a, f.a[::-1]):
                if isagg(p) and q is x:
                    if p.a[1] == name:
                        return bool(b)
                    if b:
                        return False
    for z, (lo, hi, ex) in st.bnd.items():
        if z.op == "discr" and z.a[0] is x:
            if lo == hi == i:
                return True
            if (lo is not None and lo > i) or (hi is not None and hi < i) or i in ex:
                return False
    return None


def vnames(cx, name, mod):
    return [v["name"] for v in adt(cx, name, mod)["variants"]]


def calls_at(effs, pat):
    return [e for e in effs if e.kind == "call" and re.search(pat, e.name)]


def fieldt(cx, name, mod, pat):
    r = [f[0] for f in adt(cx, name, mod)["variants"][0]["fields"] if re.search(pat, f[1])]
    if len(r) != 1:
        raise Anchor("%s: the field of type %s" % (name, pat))
    return r[0]


# ---- where properties are -----------------------------------------------------------------------------
def r_places(cx, R):
    cx.rule(R, "properties of a part of an entry are one after the other: each is found under its name at the first offset plus the sizes of those before it; paddings and variant ids take "
               "their room and are not properties")
    KV = vnames(cx, "PropertyKind", LAY)
    pk, ps, pn = fieldt(cx, "RawProperty", LAY, "PropertyKind"), "size", fieldt(cx, "RawProperty", LAY, "SmallString")
    po, pkk = fieldt(cx, "Property", LAY, "Offset"), fieldt(cx, "Property", LAY, "PropertyKind")
    k = mth(cx, LAY + r"::layout::properties::Properties::new$")
    n = 0
    for t in cx.traces(k, paths=True):
        if t.kind != "ret":
            continue
        ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"]]
        if len(ls) != 1:
            raise Anchor("%s: loops" % k)
        l = ls[0]
        off = [x for x, y in l.x["init"].items() if y is A[0]]
        mp = [x for x in l.x["init"] if t.val is x]
        P = posvar(l, A[1])
        if len(off) != 1 or len(mp) != 1 or P is None:
            raise Anchor("%s: how properties are placed" % k)
        off, mp = off[0], mp[0]
        el = mk("idx", A[1], P)
        for i in l.x["iters"]:
            n += 1
            cx.ob(R, k, "moves by the size", i.next.get(off) is add(off, fld(el, ps)), "after a property the offset becomes %s" % show(i.next.get(off)))
            ins = calls_at(i.effs, r"HashMap.*::insert$")
            special = [s for s in ("Padding", "VariantId") if kind_is(cx, i, fld(el, pk), s, KV) is True]
            plain_ = all(kind_is(cx, i, fld(el, pk), s, KV) is False for s in ("Padding", "VariantId"))
            if not ins:
                cx.ob(R, k, "nothing is lost", bool(special), "a property which is not a padding nor a variant id is not kept")
                continue
            if len(ins) != 1 or ins[0].args[0] is not mp:
                raise Anchor("%s: what is kept" % k)
            cx.ob(R, k, "only properties", plain_ and not special, "a padding or a variant id is kept as a property")
            v = ins[0].args[2]
            cx.ob(R, k, "under its name", ins[0].args[1] is fld(el, pn), "it is kept under %s" % show(ins[0].args[1]))
            cx.ob(R, k, "at its place", isagg(v) and fld(v, po) is off, "it is kept at %s" % show(fld(v, po)))
            cx.ob(R, k, "of its kind", isagg(v) and fld(v, pkk) is fld(el, pk), "its kind is %s" % show(fld(v, pkk)))
    if n < 2:
        raise Anchor("%s: %d ways" % (k, n))
    # every property definition is read, in order
    k = mth(cx, r"RawLayout as .*Parsable>::parse::<impl")
    n = 0
    for t in oks(cx.traces(k, stop=[r"RawProperty as .*::parse"])):
        ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"]]
        rs = [e for e in t.effs if e.kind == "call" and RD.search(e.name)]
        if len(ls) != 1 or len(rs) != 1 or not rs[0].name.endswith("read_u8"):
            raise Anchor("%s: what is read" % k)
        cnt = mk("pl", rs[0].res, "Ok", "0")
        l = ls[0]
        P = [x for x, y in l.x["init"].items() if y is c(0) and all(i.next.get(x) is add(x, c(1)) for i in l.x["iters"])]
        if len(P) != 1:
            raise Anchor("%s: how many properties" % k)
        P = P[0]
        vec = okval(t)
        vec = vec if vec in l.x["init"] else fld(vec, "0")
        for i in l.x["iters"]:
            n += 1
            ps_ = calls_at(i.effs, r"Parsable::parse$|RawProperty.*::parse")
            pu = i.next.get(vec)
            cx.ob(R, k, "a property each time", len(ps_) == 1 and pu is not None and pu.op == "push" and pu.a[0] is vec and pu.a[1] is mk("pl", ps_[0].res, "Ok", "0"), "the list becomes %s" % show(pu))
            for j in (0, 1, 7):
                cx.ob(R, k, "all of them", consistent(i.bnd, i.facts, {P: j, cnt: j + 1}) and not consistent(i.bnd, i.facts, {P: j, cnt: j}), "not as many properties as the count")
    if not n:
        raise Anchor("%s: no property" % k)


# ---- the layout ---------------------------------------------------------------------------------------
def r_rlayout(cx, R):
    cx.rule(R, "the layout read: properties before the first variant id are the common ones from offset 0; the variant id is one byte right after them; each variant starts right after it, with the "
               "properties up to the next variant id, and its number is its rank")
    KV = vnames(cx, "PropertyKind", LAY)
    pk, ps, pn = fieldt(cx, "RawProperty", LAY, "PropertyKind"), "size", fieldt(cx, "RawProperty", LAY, "SmallString")
    k = cx.m("Layout", "parse", "Parsable")
    late = []
    n = set()
    NEW = r"layout::properties::Properties::new$"
    fc, fv = fieldt(cx, "Layout", LAY, "Properties$"), fieldt(cx, "Layout", LAY, "Option<.*VariantPart")
    fo, fvs, fnm = fieldt(cx, "VariantPart", LAY, "Offset$"), fieldt(cx, "VariantPart", LAY, r"Box<\["), fieldt(cx, "VariantPart", LAY, "HashMap")
    for t in oks(cx.traces(k, stop=[r"RawLayout as .*::parse", NEW])):
        v = okval(t)
        rs = [e for e in t.effs if e.kind == "call" and RD.search(e.name)]
        nm = [e.name.rsplit("::", 1)[-1] for e in rs]
        cx.ob(R, k, "what is read", nm == ["read_u32", "read_u8", "read_u16", "read_u8"], "the layout is read as %s" % nm)
        if len(rs) != 4:
            continue
        cnt, flag, size, nvar = [mk("pl", e.res, "Ok", "0") for e in rs]
        cx.ob(R, k, "entry count", fld(v, "entry_count") is cnt, "the count of entries is %s" % show(fld(v, "entry_count")))
        cx.ob(R, k, "entry size", fld(v, "entry_size") is size, "the size of entries is %s" % show(fld(v, "entry_size")))
        for j in (0, 1, 2, 3):
            b = boolean(fld(v, "is_entry_checked"), {flag: j})
            if b is None:
                late.append("%s: flag" % k)
            else:
                cx.ob(R, k, "flag", b == (j & 1), "entries are said %s for flag %d" % ("checked" if b else "not checked", j))
        raw = [e for e in t.effs if e.kind == "call" and re.search(r"Parsable::parse$|RawLayout.*::parse", e.name)]
        dr = calls_at(t.effs, r"::(drain|into_iter)$")
        cm = fld(v, fc)
        if not (cm.op == "call" and re.search(NEW, str(cm.a[0]))):
            late.append("%s: common properties" % k)
            continue
        com = cm.a[1][1]
        ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"]]
        l1 = [l for l in ls if com in l.x["init"]]
        cx.ob(R, k, "common from 0", cm.a[1][0] is c(0), "common properties start at %s" % show(cm.a[1][0]))
        if len(l1) != 1 or len(raw) != 1:
            late.append("%s: how common properties are taken" % k)
            continue
        l1 = l1[0]
        S = None
        for i in l1.x["iters"]:
            pu = i.next.get(com)
            nif = calls_at(i.effs, r"Peekable::<I>::next_if$")
            if pu is None or pu.op != "push" or pu.a[0] is not com or len(nif) != 1:
                late.append("%s: how a common property is taken" % k)
                continue
            el = pu.a[1]
            cx.ob(R, k, "common properties in order", el is mk("pl", nif[0].res, "Some", "0"), "the property kept is %s" % show(el))
            ss = [x for x, y in l1.x["init"].items() if y is c(0) and i.next.get(x) is not x]
            if len(ss) != 1:
                cx.ob(R, k, "common size", False, "the size of common properties is not summed")
                continue
            S = ss[0]
            cx.ob(R, k, "common size", i.next.get(S) is add(S, fld(el, ps)), "the size of the common part becomes %s" % show(i.next.get(S)))
        # the closure stops at a variant id
        for l in t.effs:
            if l.kind == "loop":
                for i in l.x["iters"]:
                    for e in i.effs:
                        if e.kind == "cret" and e.name.endswith("next_if"):
                            for z, (lo, hi, ex) in i.bnd.items():
                                if z.op == "discr" and fld(z.a[0].a[0], pk) is z.a[0]:
                                    isv = kind_is(cx, i, z.a[0], "VariantId", KV)
                                    b = boolean(e.args[0], {})
                                    if isv is None or b is None:
                                        late.append("%s: where the common part ends" % k)
                                    else:
                                        cx.ob(R, k, "the common part ends at a variant id", b != isv, "a property is %s in the common part although it is %sa variant id" % ("put" if b else "not", "" if isv else "not "))
        if S is None:
            continue
        vp = fld(v, fv)
        if isagg(vp) and vp.a[1] == "None":
            n.add("none")
            cx.ob(R, k, "no variants", consistent(t.bnd, t.facts, {nvar: 0}) and not consistent(t.bnd, t.facts, {nvar: 1}), "no variant part although there are variants")
            continue
        n.add("some")
        cx.ob(R, k, "variants", not consistent(t.bnd, t.facts, {nvar: 0}), "a variant part although there is no variant")
        vp = fld(pl(vp, "Some", "0"), None) if False else agg_items(vp)[0][1]
        cx.ob(R, k, "the variant id follows the common part", fld(vp, fo) is S, "the variant id is read at %s" % show(fld(vp, fo)))
        vs, nms = strip_box(fld(vp, fvs)), fld(vp, fnm)
        l2 = [l for l in ls if vs in l.x["init"] and nms in l.x["init"]]
        if len(l2) != 1:
            late.append("%s: how variants are made" % k)
            continue
        l2 = l2[0]
        ini = l2.x["init"]
        nvv = {x for x in t.bnd if x.op == "lin" and contains(x, lambda y: y.op == "len" and y.a[0] is vs) and contains(x, lambda y: y is nvar)}
        if not nvv and not any(f.op == "eq0" and contains(f, lambda y: y is nvar) for f in t.facts):
            late.append("%s: the number of variants" % k)
        news = [e for i in l2.x["iters"] for e in calls_at(i.effs, NEW)]
        if not news:
            cx.ob(R, k, "variants are made", False, "no variant is made")
            continue
        # the variables: definition list, its size, its name
        D = {b for e in news for b in [base_push(e.args[1])] if b in ini}
        if len(D) != 1:
            late.append("%s: the list of a variant's properties" % k)
            continue
        D = D.pop()
        NM = [x for x, y in ini.items() if isagg(y) and y.a[1] == "None"]
        Z = [x for x, y in ini.items() if y is c(0)]
        if len(NM) != 1 or len(Z) != 1:
            late.append("%s: the variant being read" % k)
            continue
        NM, Z = NM[0], Z[0]
        cx.ob(R, k, "an empty list first", emptyvec(ini[D]), "the first variant starts with %s" % show(ini[D]))
        for i in l2.x["iters"]:
            els = {y for e in list(i.next.values()) + [a for e in i.effs for a in e.args] for y in walk(e) if y.op == "elem"} | {y for z in i.bnd for y in walk(z) if y.op == "elem"}
            if len(els) != 1:
                late.append("%s: the property being read" % k)
                continue
            el = els.pop()
            isv = kind_is(cx, i, fld(el, pk), "VariantId", KV)
            if isv is None:
                late.append("%s: variant id or not" % k)
                continue
            d1, z1, n1 = (D, Z, NM) if isv else (mk("push", D, el), add(Z, fld(el, ps)), NM)
            if isv:
                n1 = None  # Some(name of el)
            nw = calls_at(i.effs, NEW)
            pk_ = calls_at(i.effs, r"Peekable::<I>::peek$")
            rest = sub(sub(sub(size, S), c(1)), z1)
            full = decide0(i, rest)
            nxt = None
            if len(pk_) == 1:
                q = pk_[0].res
                d = i.bnd.get(mk("discr", q))
                if d is not None and d[1] == 0:
                    nxt = True
                elif d is not None and d[0] == 1:
                    kn = kind_is(cx, i, fld(mk("pl", q, "Some", "0"), pk), "VariantId", KV)
                    nxt = kn
            if not nw:
                cx.ob(R, k, "a variant ends where the entry ends", full is False or nxt is False, "no variant is made at the end of the entry")
                cx.ob(R, k, "every property is kept", same_list(i.next.get(D, D), d1), "the properties of the variant become %s" % show(i.next.get(D, D)))
                cx.ob(R, k, "the size goes on", i.next.get(Z, Z) is z1, "the size of the variant becomes %s" % show(i.next.get(Z, Z)))
                x = i.next.get(NM, NM)
                cx.ob(R, k, "the name of the variant", (isagg(x) and x.a[1] == "Some" and agg_items(x)[0][1] is fld(el, pn)) if isv else x is NM, "the name becomes %s" % show(x))
                continue
            if full is None or nxt is None:
                late.append("%s: where a variant ends" % k)
                continue
            cx.ob(R, k, "a variant ends where the entry ends", full is True and nxt is True, "a variant is made although %s" % ("properties of it follow" if full else "its size is not the one of entries"))
            e = nw[0]
            cx.ob(R, k, "a variant starts after its id", len(nw) == 1 and e.args[0] is add(S, c(1)), "a variant starts at %s" % show(e.args[0]))
            cx.ob(R, k, "all its properties", same_list(e.args[1], d1), "a variant is made of %s" % show(e.args[1]))
            pu = i.next.get(vs)
            cx.ob(R, k, "kept in order", pu is not None and pu.op == "push" and pu.a[0] is vs and contains(pu.a[1], lambda y: y is e.res), "the variants become %s" % show(pu))
            ins = calls_at(i.effs, r"HashMap.*::insert$")
            if len(ins) == 1:
                want = fld(el, pn) if isv else mk("pl", NM, "Some", "0")
                cx.ob(R, k, "its name", ins[0].args[1] is want, "it is named %s" % show(ins[0].args[1]))
                got = [evs(ins[0].args[2], {mk_len(vs): j}) for j in (0, 1, 5, 254)]
                if None in got:
                    late.append("%s: its number: %s" % (k, show(ins[0].args[2])))
                else:
                    cx.ob(R, k, "its number is its rank", got == [0, 1, 5, 254], "the variants 0, 1, 5, 254 are numbered %s" % got)
            else:
                cx.ob(R, k, "its name", False, "a variant is not named")
            cx.ob(R, k, "the next one is new", emptyvec(i.next.get(D)) and i.next.get(Z) is c(0) and isagg(i.next.get(NM)) and i.next[NM].a[1] == "None", "the next variant starts with what the last one left")
    if late:
        raise Anchor(late[0])
    if n != {"none", "some"}:
        raise Anchor("%s: with and without variants: %s" % (k, n))


def boolean(x, env):
    v = evs(x, env)
    if v is None:
        v = boolv(x, env)
    return None if v is None else int(bool(v))


def strip_box(v):
    while v.op == "fld" and v.a[1] in ("0", "inner", "buf"):
        v = v.a[0]
    return v


def base_push(v):
    while v.op == "push":
        v = v.a[0]
    return v


def emptyvec(v):
    return v is not None and (v.op == "vec" or (isagg(v) and not agg_items(v))) and v.op != "push"


def same_list(a, b):
    if a is b:
        return True
    return False


def decide0(i, x):
    """is x zero, by the bounds of i"""
    k, m = lin_parts(x)
    for z, (lo, hi, ex) in i.bnd.items():
        kz, mz = lin_parts(z)
        for s in (1, -1):
            if m and {y: s * n for y, n in mz.items()} == m:
                # x = s*z + d
                d = k - s * kz
                at = -d * s
                if lo is not None and lo == hi:
                    return lo == at
                if (lo is not None and lo > at) or (hi is not None and hi < at) or at in ex:
                    return False
    return None


# ---- values by name ------------------------------------------------------------------------------------
GETP = r"collections::hash::map::HashMap.*::get$"


def r_byname(cx, R):
    cx.rule(R, "an entry gives, for a name, the value of the property of that name of the common part, or of the variant its own variant id tells, made for that property and read from its own bytes")
    late = []
    # every property of the layout, under its name
    k = mth(cx, r"AnyPropertiesMap::new::<")
    n = 0
    for t in oks(cx.traces(k, stop=[r"FromLayoutProperty.*from_property|AnyProperty as .*from_property"])):
        ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"]]
        for l in ls:
            src = [y for y in l.x["init"].values() if contains(y, lambda z: z is A[0])]
            if not src:
                late.append("%s: which properties" % k)
            for i in l.x["iters"]:
                ys = [e for e in i.effs if e.kind == "yield"] + calls_at(i.effs, r"HashMap.*::insert$")
                fr = calls_at(i.effs, r"::from_property$")
                if len(fr) != 1 or not ys:
                    cx.ob(R, k, "every property", False, "a property of the layout is not made")
                    continue
                n += 1
                y = ys[0]
                key, val = (fld(y.args[0], "0"), fld(y.args[0], "1")) if y.kind == "yield" else (y.args[1], y.args[2])
                el = fr[0].args[0]
                cx.ob(R, k, "under its name", el.op == "fld" and el.a[1] == "1" and key is fld(el.a[0], "0"), "the property %s is kept under %s" % (show(el), show(key)))
                cx.ob(R, k, "itself", contains(val, lambda z: z is fr[0].res) and fr[0].args[1] is A[1], "what is kept is %s" % show(val))
    if not n:
        raise Anchor("%s: no property" % k)
    # by name
    for k in [k for k in cx.keys(r"AnyPropertiesMap::create_value::<") if not cx.fn(k).get("closure")]:
        n = 0
        for t in oks(cx.traces(k, stop=[r"PropertyBuilderTrait.*::create$"])):
            v = okval(t)
            cr = calls_at(t.effs, r"::create$")
            g = hget(A[0], A[1], v, t)
            if g is None:
                late.append("%s: how a name is looked for" % k)
                continue
            n += 1
            if not cr:
                cx.ob(R, k, "an unknown name", isagg(v) and v.a[1] == "None" and (t.bnd.get(mk("discr", g)) or (1,) * 2)[1] == 0, "nothing is given for a known name")
                continue
            e = cr[0]
            cx.ob(R, k, "the property of that name", len(cr) == 1 and e.args[0] is mk("pl", g, "Some", "0") and e.args[1] is A[2], "the value is made by %s from %s" % (show(e.args[0]), show(e.args[1])))
            cx.ob(R, k, "its value", isagg(v) and v.a[1] == "Some" and agg_items(v)[0][1] is mk("pl", e.res, "Ok", "0"), "what is given is %s" % show(v))
        if n < 2:
            late.append("%s: %d paths" % (k, n))
    # the maps of each part
    k = mth(cx, r"builder::AnyBuilder::new::<")
    cvp = fieldt(cx, "LazyEntryProperties", LAY, "Option<")
    ccm = fieldt(cx, "LazyEntryProperties", LAY, "AnyPropertiesMap$")
    vidp, vvar = fieldt(cx, "AnyVariantBuilder", LAY, "VariantIdProperty"), fieldt(cx, "AnyVariantBuilder", LAY, "Vec<")
    fc, fv = fieldt(cx, "Layout", LAY, "Properties$"), fieldt(cx, "Layout", LAY, "Option<.*VariantPart")
    fo, fvs = fieldt(cx, "VariantPart", LAY, "Offset$"), fieldt(cx, "VariantPart", LAY, r"Box<\[")
    bp = fieldt(cx, "AnyBuilder", LAY, "LazyEntryProperties")
    bs = fieldt(cx, "AnyBuilder", LAY, "EntryStore")
    seen = set()
    for t in oks(cx.traces(k, stop=[r"AnyPropertiesMap::new"])):
        v = okval(t)
        if not isagg(v):
            late.append("%s: what it makes" % k)
            continue
        p = unbox(fld(v, bp))
        cm = fld(p, ccm)
        news = [e for e in t.effs if e.kind == "call" and "AnyPropertiesMap::new" in e.name]
        lay = [z.a[0] for z in {y for e in news for y in walk(e.args[0])} if z.op == "fld" and z.a[1] == fc]
        if len(lay) != 1 or not contains(lay[0], lambda y: y is A[0]):
            cx.ob(R, k, "common part", False, "the common properties are made from %s" % ", ".join(show(e.args[0]) for e in news))
            continue
        lay = lay[0]
        cx.ob(R, k, "common part", any(cm is mk("pl", e.res, "Ok", "0") and e.args[0] is fld(lay, fc) and e.args[1] is A[1] for e in news), "the common properties are %s" % show(cm))
        cx.ob(R, k, "its store", contains(fld(v, bs), lambda y: y is A[0]), "the store is %s" % show(fld(v, bs)))
        w = fld(p, cvp)
        q = fld(lay, fv)
        some_ = t.E.decide(t.st, eq(mk("discr", q), c(1)))
        if some_ is None or not isagg(w):
            late.append("%s: variants" % k)
            continue
        seen.add(some_)
        cx.ob(R, k, "variant part", (w.a[1] == "Some") == some_, "variants of the layout are ignored")
        if w.a[1] != "Some" or not some_:
            continue
        w, q = agg_items(w)[0][1], pl(q, "Some", "0")
        cx.ob(R, k, "the variant id", strip_newtype(fld(w, vidp)) is fld(q, fo), "the variant id is read at %s" % show(fld(w, vidp)))
        vs = strip_box(fld(q, fvs))
        ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"] and any("AnyPropertiesMap::new" in e.name for i in l.x["iters"] for e in i.effs if e.kind == "call")]
        if len(ls) != 1:
            late.append("%s: how variants are made" % k)
            continue
        l = ls[0]
        P = posvar(l, fld(q, fvs)) or posvar(l, vs)
        for i in l.x["iters"]:
            nn = calls_at(i.effs, r"AnyPropertiesMap::new")
            ys = [e for e in i.effs if e.kind == "yield"] + calls_at(i.effs, r"Vec.*::push$")
            if P is None or len(nn) != 1 or not ys:
                late.append("%s: the variants" % k)
                continue
            el = nn[0].args[0]
            cx.ob(R, k, "each variant's properties", contains(el, lambda y: y.op == "idx" and y.a[1] is P and y.a[0] in (vs, fld(q, fvs))) and nn[0].args[1] is A[1], "a variant is made from %s" % show(el))
            cx.ob(R, k, "in order", ys[0].args[-1] is mk("pl", nn[0].res, "Ok", "0"), "a variant becomes %s" % show(ys[0].args[-1]))
    if seen != {True, False}:
        late.append("%s: with and without variants" % k)
    # the entry
    k = mth(cx, r"LazyEntry::_get_value$")
    pf, bf = fieldt(cx, "LazyEntry", LAY, "LazyEntryProperties"), fieldt(cx, "LazyEntry", LAY, "ByteRegion")
    P0 = F(A[0], pf)
    com, vpt, by = F(P0, ccm), F(P0, cvp), F(A[0], bf)
    got = set()
    for t in cx.traces(k, stop=[r"AnyPropertiesMap::(contains|create_value)", r"VariantIdProperty as .*::create"]):
        if t.kind != "ret":
            continue
        cs = [e for e in t.effs if e.kind == "call" and e.name.endswith("create_value")]
        ct = [e for e in t.effs if e.kind == "call" and e.name.endswith("AnyPropertiesMap::contains")]
        ids = [e for e in t.effs if e.kind == "call" and e.name.endswith("::create")]
        if len(ct) != 1 or ct[0].args[0] is not com or ct[0].args[1] is not A[1]:
            late.append("%s: whether the name is common" % k)
            continue
        common = t.facts.get(ct[0].res)
        if common is None:
            late.append("%s: whether the name is common" % k)
            continue
        err_ = isagg(t.val) and t.val.a[1] == "Err"
        if common:
            got.add("common")
            cx.ob(R, k, "a common property", len(cs) == 1 and cs[0].args[0] is com and cs[0].args[1] is A[1] and cs[0].args[2] is by, "a name of the common part is looked for in %s" % ", ".join(show(e.args[0]) for e in cs))
            if len(cs) == 1:
                cx.ob(R, k, "its value", t.val is cs[0].res, "what is given is %s" % show(t.val))
            continue
        if not cs:
            if err_:
                continue
            # nothing: no variant, or no such variant
            none = t.E.decide(t.st, eq(mk("discr", vpt), c(0)))
            big = None
            if ids:
                vid = mk("pl", ids[0].res, "Ok", "0")
                vl = mk_len(F(pl(vpt, "Some", "0"), vvar))
                big = t.E.decide(t.st, le(vl, vid))
            got.add("none")
            cx.ob(R, k, "no value", none is True or big is True, "no variant property is looked for although the entry has a variant")
            continue
        got.add("variant")
        e = cs[-1]
        vp = pl(vpt, "Some", "0")
        okv = len(ids) == 1 and ids[0].args[0] is F(vp, vidp) and ids[0].args[1] is by
        cx.ob(R, k, "its variant", okv and e.args[0].op == "idx" and e.args[0].a[0] is F(vp, vvar) and e.args[0].a[1] is mk("pl", ids[0].res, "Ok", "0"), "a property of the variant is looked for in %s" % show(e.args[0]))
        cx.ob(R, k, "by its name, in its bytes", len(cs) == 1 and e.args[1] is A[1] and e.args[2] is by, "%s is looked for in %s" % (show(e.args[1]), show(e.args[2])))
        okk = contains(t.val, lambda y: y is e.res) or (isagg(t.val) and t.val.a[1] == "Ok" and isagg(okval(t)) and okval(t).a[1] == "None" and (t.bnd.get(mk("discr", mk("pl", e.res, "Ok", "0"))) or (1, 1))[1] == 0)
        cx.ob(R, k, "its value", okk, "what is given is %s" % show(t.val))
    if got != {"common", "none", "variant"}:
        late.append("%s: paths %s" % (k, sorted(got)))
    k = mth(cx, r"LazyEntry as .*EntryTrait>::get_variant_id$")
    n = 0
    for t in oks(cx.traces(k, stop=[r"VariantIdProperty as .*::create"])):
        v = okval(t)
        n += 1
        some_ = t.E.decide(t.st, eq(mk("discr", vpt), c(1)))
        if some_ is None:
            late.append("%s: variants" % k)
        elif some_:
            ids = [e for e in t.effs if e.kind == "call" and e.name.endswith("::create")]
            cx.ob(R, k, "the variant id", len(ids) == 1 and ids[0].args[0] is F(pl(vpt, "Some", "0"), vidp) and ids[0].args[1] is by and isagg(v) and v.a[1] == "Some" and agg_items(v)[0][1] is mk("pl", ids[0].res, "Ok", "0"), "the variant is %s" % show(v))
        else:
            cx.ob(R, k, "no variant", isagg(v) and v.a[1] == "None", "a variant is given: %s" % show(v))
    if n < 2:
        late.append("%s: %d paths" % (k, n))
    # the variant id itself: one byte at its offset
    for k in cx.keys(r"VariantIdProperty as .*PropertyBuilderTrait>::create::<"):
        for t in oks(cx.traces(k, stop=[r"RandomParser.*::read_u8$"])):
            rs = [e for e in t.effs if e.kind == "call" and re.search(r"RandomParser::read_\w+$|Parser::read_\w+$", e.name)]
            if len(rs) != 1:
                gs = [e for e in t.effs if e.kind == "call" and e.name.endswith("Source::get_slice")]
                if len(gs) != 1:
                    late.append("%s: what is read" % k)
                    continue
                rg = gs[0].args[1]
                b, e_ = fld(rg, "begin"), fld(rg, "end")
                base = F(F(A[1], fieldt(cx, "ByteRegion", "byte_region", "Range|Region")), "begin")
                cx.ob(R, k, "one byte at its offset", sub(e_, b) is c(1) and sub(b, base) in (A[0], F(A[0], "offset"), F(A[0], "0")), "the variant id is read at %s" % show(rg))
                cx.ob(R, k, "that byte", okval(t).op == "idx" and okval(t).a[1] is c(0) and contains(okval(t), lambda y: y is gs[0].res), "the variant id is %s" % show(okval(t)))
                continue
            cx.ob(R, k, "one byte at its offset", rs[0].name.endswith("read_u8") and rs[0].args[0] is A[1] and rs[0].args[1] in (A[0], F(A[0], "offset"), F(A[0], "0")) and okval(t) is mk("pl", rs[0].res, "Ok", "0"), "the variant id is %s read by %s at %s" % (show(okval(t)), rs[0].name, show(rs[0].args[1])))
    if late:
        raise Anchor(late[0])


def unbox(v):
    """what an Rc/Arc aggregate holds"""
    while isagg(v) and re.search(r"(rc::Rc|arc::Arc|Inner)", str(v.a[0])):
        xs = agg_items(v)
        v = xs[-1][1]
    return v


def hget(m, key, v, t):
    """the result of looking for key in the map m, in the trace"""
    for z in set(list(t.bnd) + [v]):
        for y in walk(z):
            if y.op in ("call", "pure") and re.search(GETP, str(y.a[0])) and len(y.a[1]) == 2 and y.a[1][0] in (m, fld(m, "properties"), fld(m, "0")) and y.a[1][1] is key:
                return y
    return None


# ---- which entry ---------------------------------------------------------------------------------------
def r_window(cx, R):
    cx.rule(R, "an index gives, for n below its count, the entry at its first entry plus n of its store; a store gives for i below its count the entry_size bytes at i times entry_size of the data "
               "written before the tail; nothing is given beyond")
    late = []
    k = mth(cx, r"^<Self as .*RangeTrait>::get_entry::<")
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        n += 1
        cs = {e.name.rsplit("::", 1)[-1]: e for e in t.effs if e.kind == "call"}
        if "create_entry" in cs and not any(contains(x, lambda y: y is A[2]) for x in list(t.bnd) + list(t.facts)):
            cx.ob(R, k, "entries below the count", False, "an entry is given whatever its number")
            continue
        if "count" not in cs or not set(cs) <= {"count", "offset", "create_entry"}:
            raise Anchor("%s: what it uses" % k)
        cnt = cs["count"].res
        inside = t.E.decide(t.st, lt(A[2], cnt))
        if inside is None:
            # by what the bounds allow
            can = [(i, m) for m in range(4) for i in range(6) if consistent(t.bnd, t.facts, {A[2]: i, cnt: m})]
            if len(can) in (0, 24):
                raise Anchor("%s: which entries" % k)
            got = "create_entry" in cs
            cx.ob(R, k, "entries below the count", all((i < m) == got for i, m in can), "entry %d of %d is %sgiven" % (next(((i, m) for i, m in can if (i < m) != got), (0, 0)) + ("" if got else "not ",)))
            continue
        ce = cs.get("create_entry")
        cx.ob(R, k, "entries below the count", inside == (ce is not None), "an entry %s is %sgiven" % ("below the count" if inside else "beyond the count", "not " if inside else ""))
        if ce is not None:
            off = cs["offset"].res if "offset" in cs else None
            cx.ob(R, k, "from the first one", off is not None and ce.args[1] is add(A[2], off) and ce.args[0] is A[1] and t.val is ce.res, "the entry given is %s" % show(ce.args[1]))
    if n < 2:
        raise Anchor("%s: %d paths" % (k, n))
    fo, fc = fieldt(cx, "IndexHeader", LAY, "EntryIdx"), fieldt(cx, "IndexHeader", LAY, "EntryCount")
    for m, f in (("offset", fo), ("count", fc)):
        k = mth(cx, r"index::Index as .*RangeTrait>::%s$" % m)
        for t in cx.traces(k):
            v = t.val
            cx.ob(R, k, m, v.op == "fld" and v.a[1] == f and v.a[0] in (A[0], F(A[0], "header")), "the %s of an index is %s" % (m, show(v)))
    for m in ("offset", "count"):
        k = mth(cx, r"Range<.*EntryIdx> as .*RangeTrait>::%s$" % m)
        for t in cx.traces(k):
            want = F(A[0], "begin") if m == "offset" else sub(F(A[0], "end"), F(A[0], "begin"))
            cx.ob(R, k, m, t.val is want, "the %s of a range is %s" % (m, show(t.val)))
    # the store
    k = mth(cx, r"PlainStore::get_entry_reader$")
    lf, rf = fieldt(cx, "PlainStore", LAY, "Layout"), fieldt(cx, "PlainStore", LAY, "Reader")
    lay, rd = F(A[0], lf), F(A[0], rf)
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        n += 1
        inside = t.E.decide(t.st, lt(A[1], F(lay, "entry_count")))
        if inside is None:
            raise Anchor("%s: which entries" % k)
        v = t.val
        cx.ob(R, k, "entries of the store", inside == (isagg(v) and v.a[1] == "Some"), "an entry %s is %sgiven" % ("of the store" if inside else "beyond its end", "not " if inside else ""))
        if isagg(v) and v.a[1] == "Some":
            b = agg_items(v)[0][1]
            rg = [y for y in walk(b) if isagg(y) and str(y.a[0]).endswith("Range")]
            if len(rg) != 1:
                raise Anchor("%s: which bytes" % k)
            b0, e0 = fld(rg[0], "begin"), fld(rg[0], "end")
            base = [y for y in lin_parts(b0)[1] if y.op == "fld" and y.a[1] == "begin" and contains(y, lambda z: z is rd)]
            es = F(lay, "entry_size")
            cx.ob(R, k, "its bytes", len(base) == 1 and sub(b0, base[0]) is mul(A[1], es) and sub(e0, b0) is es, "the bytes of entry n are %s" % show(rg[0]))
    if n < 2:
        raise Anchor("%s: %d paths" % (k, n))
    # its data: what is before the tail
    k = mth(cx, r"EntryStore as .*DataBlockParsable>::finalize$")
    n = 0
    cut = r"bases::reader::Reader::(cut|cut_check)$"
    for t in oks(cx.traces(k, stop=[cut])):
        cs = calls_at(t.effs, cut)
        if len(cs) != 1:
            raise Anchor("%s: the data" % k)
        n += 1
        a = cs[0].args
        checked = boolean2(t, F(A[0], "is_entry_checked"))
        if checked is None:
            late.append("%s: how entries are checked" % k)
            continue
        es = F(A[0], "entry_size")
        sz = mul(F(A[0], "entry_count"), add(es, c(4)) if checked else es)
        cx.ob(R, k, "size of the data%s" % (" (checked entries)" if checked else ""), a[2] is sz, "the data of the store are %s bytes" % show(a[2]))
        cx.ob(R, k, "place of the data%s" % (" (checked entries)" if checked else ""), a[1] is sub(sub(A[1], sz), c(0 if checked else 4)), "the data of the store are at %s" % show(a[1]))
        v = okval(t)
        cx.ob(R, k, "its layout and its data", contains(v, lambda y: y is A[0]) and contains(v, lambda y: y is cs[0].res or (y.op == "pl" and y.a[0] is cs[0].res)), "the store is %s" % show(v))
        if not checked:
            cx.ob(R, k, "verified", cs[0].name.endswith("cut_check") and isagg(a[3]) and a[3].a[1] == "Crc32", "the data are not verified")
    if n < 2:
        late.append("%s: %d paths" % (k, n))
    # the entry made
    k = mth(cx, r"AnyBuilder as .*BuilderTrait>::create_entry$")
    sf, pf = fieldt(cx, "AnyBuilder", LAY, "EntryStore"), fieldt(cx, "AnyBuilder", LAY, "LazyEntryProperties")
    n = 0
    for t in oks(cx.traces(k, stop=[r"EntryStore::get_entry_reader$|PlainStore::get_entry_reader$"])):
        g = calls_at(t.effs, r"get_entry_reader$")
        if len(g) != 1:
            raise Anchor("%s: which bytes" % k)
        n += 1
        v = okval(t)
        cx.ob(R, k, "the entry asked", g[0].args[1] is A[1] and contains(g[0].args[0], lambda y: y is F(A[0], sf)), "the entry read is %s" % show(g[0].args[1]))
        d = t.E.decide(t.st, eq(mk("discr", g[0].res), c(1)))
        if d is None or not isagg(v):
            late.append("%s: what it gives" % k)
            continue
        cx.ob(R, k, "an entry", d == (v.a[1] == "Some"), "no entry is given for an existing one")
        if v.a[1] == "Some":
            e = agg_items(v)[0][1]
            by = fld(e, fieldt(cx, "LazyEntry", LAY, "ByteRegion"))
            sl = mk("pl", g[0].res, "Some", "0")
            cx.ob(R, k, "its properties", fld(e, fieldt(cx, "LazyEntry", LAY, "LazyEntryProperties")) is F(A[0], pf), "its properties are %s" % show(e))
            cx.ob(R, k, "its bytes", by is sl or (isagg(by) and all(contains(x, lambda y: y is sl) for _, x in agg_items(by))), "its bytes are %s" % show(by))
    if n < 2:
        late.append("%s: %d paths" % (k, n))
    if late:
        raise Anchor(late[0])


def boolean2(t, x):
    if x in t.facts:
        return bool(t.facts[x])
    b = t.bnd.get(x)
    if b and b[0] is not None and b[0] == b[1]:
        return bool(b[0])
    return None


# ---- indexes and stores on disk -----------------------------------------------------------------------
INDEX = [("store", 4), ("count", 4), ("first", 4), ("free", 4), ("key", 1)]


def r_index(cx, R):
    cx.rule(R, "an index is described by its store, the count of its entries, its first entry (4 bytes each), 4 free bytes, a property number and its name; the reader takes the same; an entry store "
               "by its kind 0, the count of entries (4 bytes), a zero flag and the layout; parts of a directory are read where their pointer tells")
    late = []
    k = cx.m("Index", "serialize_tail", "WritableTell")
    M = "creator::directory_pack"
    fs = {"store": fieldt(cx, "Index", M, "EntryStoreIdx"), "count": fieldt(cx, "Index", M, "EntryCount"), "first": fieldt(cx, "Index", M, r"Word<|Fn"), "free": fieldt(cx, "Index", M, "FreeData"),
          "key": fieldt(cx, "Index", M, "PropertyIdx"), "name": fieldt(cx, "Index", M, "String")}
    n = 0
    for t in oks(cx.traces(k)):
        n += 1
        tb = written(t, snk(t))
        tb = [(evs(w, {}) if isinstance(w, T) else None, e, x) for o, w, e, x in tb]
        if len(tb) != 7:
            cx.ob(R, k, "index", False, "an index is described by %d parts" % len(tb))
            continue
        for (w, e, x), (nm, n_) in zip(tb, INDEX):
            f = F(A[0], fs[nm])
            good = x is f or (nm == "first" and x.op == "call" and x.a[1][0] is f) or (nm == "free" and contains(x, lambda y: y is f))
            cx.ob(R, k, nm, good and (w == n_ or (nm == "free" and e == "raw")), "the %s of an index is written as %s on %s bytes" % (nm, show(x), w))
        w, e, x = tb[5]
        cx.ob(R, k, "length of the name", w == 1 and unext(x, 8) is mk_len(F(A[0], fs["name"])), "the length of the name is %s" % show(x))
        cx.ob(R, k, "name", base_obj(tb[6][2]) is F(A[0], fs["name"]) or contains(tb[6][2], lambda y: y is F(A[0], fs["name"])), "the name is written as %s" % show(tb[6][2]))
    if not n:
        late.append("%s: no path" % k)
    ks = cx.keys(r"IndexHeader as .*Parsable>::parse::<jubako::bases::parsing::SliceParser")
    if not ks:
        raise Anchor("parser of IndexHeader")
    k = ks[0]
    fr = {"store": fieldt(cx, "IndexHeader", LAY, "EntryStoreIdx"), "count": fieldt(cx, "IndexHeader", LAY, "EntryCount"), "first": fieldt(cx, "IndexHeader", LAY, "EntryIdx"),
          "free": fieldt(cx, "IndexHeader", LAY, "FreeData"), "key": "index_property", "name": fieldt(cx, "IndexHeader", LAY, "SmallString|String")}
    sl, o0 = F(A[0], "slice"), F(A[0], "offset")
    n = 0
    for t in oks(cx.traces(k)):
        v = okval(t)
        n += 1
        at = 0
        for nm, w in INDEX:
            x = fld(v, fr[nm])
            if nm == "free":
                g = x.op == "slice" and x.a[0] is sl and x.a[1] is add(o0, c(at)) and x.a[2] is add(o0, c(at + w))
            else:
                g = rd_u(x, sl, add(o0, c(at)), w)
            cx.ob(R, k, nm, g, "the %s of an index is read as %s" % (nm, show(x)))
            at += w
        x = fld(v, fr["name"])
        ln = mk("idx", sl, add(o0, c(at)))
        cx.ob(R, k, "name", contains(x, lambda y: y.op == "slice" and y.a[0] is sl and y.a[1] is add(o0, c(at + 1)) and y.a[2] is add(add(o0, c(at + 1)), ln)), "the name is read as %s" % show(x))
    if not n:
        late.append("%s: no path" % k)
    # entry stores
    k = cx.m("FinalEntryStore", "serialize_tail", "WritableTell")
    lf, ef = fieldt(cx, "FinalEntryStore", M, r"layout::"), fieldt(cx, "FinalEntryStore", M, r"^alloc::vec::Vec<")
    n = 0
    for t in oks(cx.traces(k, stop=[r"layout::.*serialize"])):
        n += 1
        ws = [(evs(w, {}) if isinstance(w, T) else None, x) for o, w, e, x in written(t, snk(t))][:3]
        want = [(1, c(0)), (4, None), (1, c(0))]
        good = len(ws) == 3 and all(a[0] == b[0] and (b[1] is None or a[1] is b[1]) for a, b in zip(ws, want)) and unext(ws[1][1], 32) is mk_len(F(A[0], ef))
        cx.ob(R, k, "kind, count, flag", good, "the tail of an entry store is %s" % ["%s:%s" % (a, show(b)) for a, b in ws])
        ly = [e for e in t.effs if e.kind == "call" and e.name.endswith("::serialize")]
        cx.ob(R, k, "then its layout", len(ly) == 1 and ly[0].args[0] is F(A[0], lf), "its layout is not described")
    if not n:
        late.append("%s: no path" % k)
    k = mth(cx, r"EntryStoreBuilder as .*Parsable>::parse::<impl")
    n = 0
    for t in oks(cx.traces(k, stop=[r"layout::Layout as .*parse"])):
        n += 1
        rs = [e for e in t.effs if e.kind == "call" and RD.search(e.name)]
        ly = [e for e in t.effs if e.kind == "call" and e.name.endswith("::parse")]
        if len(rs) != 1 or len(ly) != 1:
            cx.ob(R, k, "what is read", False, "%d values and %d layouts are read" % (len(rs), len(ly)))
            continue
        kd = mk("pl", rs[0].res, "Ok", "0")
        cx.ob(R, k, "kind 0", rs[0].name.endswith("read_u8") and not consistent(t.bnd, t.facts, {kd: 1}) and consistent(t.bnd, t.facts, {kd: 0}), "a store of another kind is read as a plain one")
        cx.ob(R, k, "its layout", okval(t) is mk("pl", ly[0].res, "Ok", "0"), "the layout is %s" % show(okval(t)))
    if not n:
        late.append("%s: no path" % k)
    # parts of the directory
    H = "header"
    IDX = r"IndexTrait.*::index$|ArrayReader.*::index$"
    ptr = {}
    for f in adt(cx, "DirectoryPack", LAY)["variants"][0]["fields"]:
        if "ArrayReader<" in f[1]:
            ptr[re.sub(r"_?(ptrs?|stores?|positions?|offsets?)", "", f[0]) or f[0]] = f[0]
    seen = {}
    for ty, what in (("value_store::ValueStore", "value"), ("entry_store::EntryStore", "entry")):
        kv = mth(cx, r"DirectoryPack as .*CachableSource<.*%s>>::get_value$" % ty)
        kl = mth(cx, r"DirectoryPack as .*CachableSource<.*%s>>::get_len$" % ty)
        for t in cx.traces(kl):
            v = t.val
            cx.ob(R, kl, "how many", v.op == "fld" and v.a[1] == what + "_store_count", "there are %s %s stores" % (show(v), what))
        m = 0
        for t in oks(cx.traces(kv, stop=[IDX, r"Reader::parse_data_block"])):
            m += 1
            ix, pb = calls_at(t.effs, IDX), calls_at(t.effs, r"parse_data_block$")
            if len(ix) != 1 or len(pb) != 1:
                late.append("%s: how it is read" % kv)
                continue
            seen[what] = ix[0].args[0]
            good = ix[0].args[0].op == "fld" and ix[0].args[0].a[1].startswith(what) and ix[0].args[1] is A[1]
            cx.ob(R, kv, "by its pointer", good, "store n is the one at %s of %s" % (show(ix[0].args[1]), show(ix[0].args[0])))
            cx.ob(R, kv, "where it tells", pb[0].args[-1] is mk("pl", ix[0].res, "Ok", "0") and contains(pb[0].args[0], lambda y: y is A[0]) and contains(okval(t), lambda y: y is mk("pl", pb[0].res, "Ok", "0")), "it is read at %s" % show(pb[0].args[-1]))
        if not m:
            late.append("%s: no path" % kv)
    for nm in ("get_index", "get_index_from_name"):
        k = mth(cx, r"reader::directory_pack::DirectoryPack::%s$" % nm)
        m = 0
        for t in oks(cx.traces(k, stop=[IDX, r"Reader::parse_block_in"])):
            v = okval(t)
            ix, pb = calls_at(t.effs, IDX), calls_at(t.effs, r"parse_block_in$")
            if nm == "get_index_from_name" and isagg(v) and v.a[1] == "None":
                ls = [l for l in t.effs if l.kind == "loop" and l.x["iters"]]
                if len(ls) != 1:
                    late.append("%s: how indexes are searched" % k)
                    continue
                l = ls[0]
                P = [x for x, y in l.x["init"].items() if y is c(0) and all(i.next.get(x) is add(x, c(1)) for i in l.x["iters"])]
                hc = [y for z in t.bnd for y in walk(z) if y.op == "fld" and y.a[1] == "index_count"]
                if len(P) != 1 or not hc:
                    late.append("%s: how indexes are searched" % k)
                    continue
                cx.ob(R, k, "all of them are looked at", consistent(t.bnd, t.facts, {P[0]: 3, hc[0]: 3}) and not consistent(t.bnd, t.facts, {P[0]: 2, hc[0]: 3}), "the search ends before the last index")
                for i in l.x["iters"]:
                    d = [f for f, b in i.facts.items() if f.op == "eq" and contains(f, lambda y: y is A[1]) and not b]
                    cx.ob(R, k, "another name goes on", bool(d), "the search goes on after the index asked")
                continue
            if len(ix) != 1 or len(pb) != 1:
                late.append("%s: how it is read" % k)
                continue
            m += 1
            so = mk("pl", ix[0].res, "Ok", "0")
            cx.ob(R, k, "by its pointer", ix[0].args[0].op == "fld" and ix[0].args[0].a[1].startswith("index") and (nm != "get_index" or ix[0].args[1] is A[1]), "index n is the one at %s of %s" % (show(ix[0].args[1]), show(ix[0].args[0])))
            a = pb[0].args
            cx.ob(R, k, "where it tells", a[1] is fld(so, "offset") and a[2] is fld(so, "size") and contains(v, lambda y: y is mk("pl", pb[0].res, "Ok", "0")), "it is read at %s, %s bytes" % (show(a[1]), show(a[2])))
            if nm != "get_index":
                hd = mk("pl", pb[0].res, "Ok", "0")
                d = [f for f, b in t.facts.items() if f.op == "eq" and b and A[1] in f.a and contains(f, lambda y: y is fld(hd, fr["name"]))]
                cx.ob(R, k, "of that name", bool(d), "an index is given although nothing tells its name is the one asked")
        if not m:
            late.append("%s: no path" % k)
    # caches
    k = mth(cx, r"cache::VecCache::<Value, Source>::get ")
    n = 0
    cv, cs_ = fieldt(cx, "VecCache", "cache", "Vec<"), fieldt(cx, "VecCache", "cache", "Arc<Source")
    for t in oks(cx.traces(k)):
        n += 1
        g = calls_at(t.effs, r"OnceLock.*::(get|set|get_or_init)$")
        gv = calls_at(t.effs, r"CachableSource::get_value$")
        slots = {e.args[0] for e in g}
        if len(slots) != 1:
            cx.ob(R, k, "one slot", False, "several slots of the cache are used for one number")
            continue
        s = slots.pop()
        into = s.a[1] if s.op == "idx" else None
        cx.ob(R, k, "its slot", s.op == "idx" and s.a[0] is F(A[0], cv) and (into is A[1] or (into.op in ("call", "pure") and into.a[1][0] is A[1] and re.search(r"::(into|from)$", str(into.a[0])))), "the slot used is %s" % show(s))
        for e in gv:
            cx.ob(R, k, "its value", e.args[1] is A[1] and contains(e.args[0], lambda y: y is F(A[0], cs_)), "the value kept is the one of %s" % show(e.args[1]))
        for e in g:
            if e.name.endswith("::set"):
                cx.ob(R, k, "kept once read", any(e.args[1] is mk("pl", x.res, "Ok", "0") for x in gv), "what is kept is %s" % show(e.args[1]))
        for e in flat(t.effs):
            if e.kind == "init" and e.args[0] is s:
                cx.ob(R, k, "kept once read", any(e.args[1] is mk("pl", x.res, "Ok", "0") for x in gv), "what is kept is %s" % show(e.args[1]))
        cx.ob(R, k, "given from its slot", contains(okval(t), lambda y: (y.op in ("call", "pure") and "OnceLock" in str(y.a[0]) and s in y.a[1]) or (y.op == "once" and y.a[0] is s)) or any(okval(t) is mk("pl", x.res, "Ok", "0") for x in gv), "what is given is %s" % show(okval(t)))
    if not n:
        late.append("%s: no path" % k)
    if late:
        raise Anchor(late[0])


# ---- the values an entry was given --------------------------------------------------------------------
def r_given(cx, R):
    cx.rule(R, "an entry keeps the values it was given each under its own name, and hands out under a name the value given under it; the columns filled are the common ones and those of the variant "
               "named")
    M = "creator::directory_pack"
    late = []
    nf, vf, xf = fieldt(cx, "BasicEntry", M, r"\[PN\]"), fieldt(cx, "BasicEntry", M, r"\[.*Value\]"), fieldt(cx, "BasicEntry", M, r"Option<VN>")
    k = mth(cx, r"BasicEntry::<PN, VN>::new_idx")
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        if not isagg(t.val):
            raise Anchor("%s: what it makes" % k)
        n += 1
        a, b = strip_box(fld(t.val, nf)), strip_box(fld(t.val, vf))
        nm, vl = fld(t.val, nf), fld(t.val, vf)
        un = {y for x in (nm, vl) for y in walk(x) if y.op == "call" and str(y.a[0]).endswith("Iterator::unzip")}
        if len(un) != 1:
            late.append("%s: how names and values are split" % k)
            continue
        u = un.pop()
        cx.ob(R, k, "names and values of the same", nm is fld(u, "0") and vl is fld(u, "1") and contains(u, lambda y: y is A[1]), "names are %s and values %s" % (show(nm), show(vl)))
        cx.ob(R, k, "its variant", fld(t.val, xf) is A[0], "its variant is %s" % show(fld(t.val, xf)))
    if not n:
        late.append("%s: no path" % k)
    ks = [k for k in cx.keys(r"BasicEntry<PN, VN> as .*EntryTrait<PN, VN>>::value\b") if not cx.fn(k).get("closure") and k.split("::")[-1].startswith("value ")] or cx.keys(r"BasicEntry<PN, VN> as .*EntryTrait<PN, VN>>::value$")
    if len(ks) != 1:
        raise Anchor("BasicEntry::value")
    k = ks[0]
    n = 0
    for t in cx.traces(k):
        if t.kind != "ret":
            continue
        v = agg_items(t.val)[0][1] if isagg(t.val) else t.val
        names, values = F(A[0], nf), F(A[0], vf)
        if not (v.op == "idx" and v.a[0] is values):
            cx.ob(R, k, "one of its values", False, "what is given is %s" % show(v))
            continue
        n += 1
        e = [f for f, b in t.facts.items() if f.op == "eq" and b and A[1] in f.a and any(y.op == "idx" and y.a[0] is names for y in f.a)]
        if len(e) != 1:
            cx.ob(R, k, "under its name", False, "nothing tells that the name is the one asked")
            continue
        j = [y for y in e[0].a if y is not A[1]][0].a[1]
        i = v.a[1]
        good = i is j
        if not good:
            for l in t.effs:
                if l.kind == "loop" and i in l.x["init"] and j in l.x["init"]:
                    good = l.x["init"][i] is l.x["init"][j] and all(sub(z.next.get(i, i), i) is sub(z.next.get(j, j), j) for z in l.x["iters"])
        cx.ob(R, k, "under its name", good, "for the name number %s the value number %s is given" % (show(j), show(i)))
    if not n:
        late.append("%s: no path" % k)
    k = mth(cx, r"ValueTransformer::<'_, PN>::new::<VN>")
    cf, vfs = fieldt(cx, "Schema", "creator::directory_pack::schema", r"CommonProperties|Properties<PN>$"), fieldt(cx, "Schema", "creator::directory_pack::schema", r"Vec<\(")
    kf, mf = fieldt(cx, "ValueTransformer", M, "Iterator"), fieldt(cx, "ValueTransformer", M, "HashMap")
    com, var = F(A[0], cf), F(A[0], vfs)
    seen = set()
    for t in cx.traces(k):
        if t.kind != "ret" or not isagg(t.val):
            continue
        if any(contains(x, lambda y: "uneval" in str(y.a[0]) if y.op == "const" and y.a else False) for x in t.facts):
            continue
        it, vs = fld(t.val, kf), fld(t.val, mf)
        parts = chain_of(it)
        none = t.E.decide(t.st, eq(mk_len(var), c(0)))
        if none is None:
            late.append("%s: with or without variants" % k)
            continue
        cx.ob(R, k, "the values given", vs is A[2], "the values are %s" % show(vs))
        seen.add(none)
        if not parts or any(p is None for p in parts):
            late.append("%s: the columns" % k)
            continue
        cx.ob(R, k, "the common columns", under_seq(parts[0], com), "the first columns are %s" % show(parts[0]))
        if none:
            cx.ob(R, k, "only them", len(parts) == 1, "other columns are filled")
            continue
        ok_ = len(parts) == 2 and parts[1].op in ("fld", "idx")
        el = None
        if ok_:
            el = [y for y in walk(parts[1]) if y.op == "idx" and y.a[0] is var]
        if not el:
            cx.ob(R, k, "the variant's columns", False, "the columns of the variant are not filled")
            continue
        el = el[0]
        nm = pl(A[1], "Some", "0")
        named = [f for f, b in t.facts.items() if b and f.op == "eq" and nm in f.a and fld(el, "0") in f.a]
        cx.ob(R, k, "the variant's columns", parts[1] in (fld(el, "1"), fld(fld(el, "1"), "0")) and bool(named), "the columns of another variant are filled")
    if seen != {True, False}:
        late.append("%s: with and without variants" % k)
    if late:
        raise Anchor(late[0])


def chain_of(it):
    if it.op == "call" and str(it.a[0]).endswith("Iterator::chain"):
        return [x for y in it.a[1] for x in (chain_of(y) or [None])]
    if isagg(it) and "src" in dict(agg_items(it)):
        d = dict(agg_items(it))
        return [d["src"]] if d.get("pos") is c(0) else [None]
    if isagg(it) and len(agg_items(it)) == 2 and "chain" in str(it.a[:2]):
        return [x for _, y in agg_items(it) for x in (chain_of(y) or [None])]
    return None


def under_seq(x, base):
    while x is not None and x is not base and x.op == "fld":
        x = x.a[0]
    return x is base


# ---- the layout, written -------------------------------------------------------------------------------------
def r_lwrite(cx, R):
    cx.rule(R, "the layout of a store is described by the size of an entry (2 bytes), the number of variants and the number of properties of all of them (1 byte each, never cut), the common properties, then "
               "each variant's, all of them in order")
    SE = r"Serializable::serialize$|layout::\w+::\w+::.*serialize$|layout::.*Serializable>::serialize$"
    k = mth(cx, r"layout::entry::Entry<[\w, ]+> as .*Serializable>::serialize( \[|$)")
    fc, fv, fs = (F(A[0], x) for x in ("common", "variants", "entry_size"))
    late = None
    n = 0
    for t in oks(cx.traces(k, stop=[r"layout::properties::Properties<.*::serialize$"])):
        n += 1
        ws = [(evs(w, {}) if isinstance(w, T) else None, x) for o, w, e, x in written(t, snk(t))][:3]
        if len(ws) < 3:
            cx.ob(R, k, "sizes", False, "a layout starts with %d values" % len(ws))
            continue
        (w0, x0), (w1, x1), (w2, x2) = ws
        cx.ob(R, k, "size of an entry", w0 == 2 and unext(x0, 16) is fs, "it starts with %s on %s bytes" % (show(x0)[:80], w0))
        cx.ob(R, k, "number of variants", w1 == 1 and unext(x1, 8) is mk_len(fv), "the number of variants is %s on %s bytes" % (show(x1)[:80], w1))
        cx.ob(R, k, "variants counted whole", not any(consistent(t.bnd, t.facts, {mk_len(fv): m}) for m in (256, 257, 65536)), "256 variants are said to be none")
        ct = unext(x2, 8)
        ini = [l.x["init"][y] for l in flat_loops(t.effs) for y in l.x["init"] if contains(ct, lambda z: z is y)]
        own, oth = any(contains(z, lambda y: y is mk_len(fc) or y is mk_len(strip_newtype(fld(fc, "0")))) for z in [ct] + ini), contains(ct, lambda y: y is fv) or any(y.op == "lv" for y in walk(ct))
        oth = oth and evs(ct, {mk_len(fc): 2, mk_len(fv): 3}) is None
        cx.ob(R, k, "number of properties", w2 == 1 and own and oth, "the number of properties is %s on %s bytes" % (show(ct)[:80], w2))
        lens = {y for x in list(t.bnd) for y in walk(x) if y is ct}
        cx.ob(R, k, "properties counted whole", bool(lens) and not any(consistent(t.bnd, t.facts, {ct: m}) for m in (256, 257, 65536)), "256 properties are said to be none")
        cs = [e for e in t.effs if e.kind == "call" and re.search(SE, e.name)]
        ls = loops_calling(t, SE)
        cx.ob(R, k, "common properties", len(cs) == 1 and strip_newtype(cs[0].args[0]) is fc, "the common properties are not described once")
        r = each(cx, R, k, t, SE, fv, "every variant is described")
        cx.ob(R, k, "every variant", r is not None and r[0], "not every variant is described" if r else "variants are not described")
        if r:
            v = visit(t, r[1][0][0], r[1][0][2], origins(t))
            cx.ob(R, k, "variants in order", v is None or not v[1], "variants are described in reverse order")
            cx.ob(R, k, "common properties first", not cs or [i for i, e in enumerate(t.effs) if e is cs[0]] < [i for i, e in enumerate(t.effs) if e is r[1][0][0]], "the common properties are described after the variants")
    if not n:
        late = "%s: no path" % k
    k = mth(cx, r"layout::properties::Properties<\w+> as .*Serializable>::serialize( \[|$)")
    n = 0
    for t in oks(cx.traces(k, stop=[r"layout::property::Property<.*::serialize$"])):
        n += 1
        r = each(cx, R, k, t, SE, A[0], "every property is described")
        cx.ob(R, k, "every property", r is not None and r[0], "not every property is described" if r else "properties are not described")
        if r:
            v = visit(t, r[1][0][0], r[1][0][2], origins(t))
            cx.ob(R, k, "in order", v is None or not v[1], "properties are described in reverse order")
    if not n or late:
        raise Anchor(late or "%s: no path" % k)
