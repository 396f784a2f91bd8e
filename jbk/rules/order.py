"""The order of entries and how they are looked up: comparisons on both sides, sorting, searching (C03)."""
from .readers import *
from .core import RESTRICT

LESS, EQUAL, GREATER = 255, 0, 1


def pay(v, variant, f="0"):
    return mk("pl", v, variant, f)


SIGN = {LESS: -1, EQUAL: 0, GREATER: 1}
ORDN = {"Less": -1, "Equal": 0, "Greater": 1}
NONE_ = "none"


def sgn(x):
    return (x > 0) - (x < 0)


def names_of(e):
    return "%s %s" % (e.rdef or "", e.name)


def order_of(v, val):
    """-1, 0, 1 of an ordering term under the valuation `val` of its operands; None: not understood"""
    if isagg(v) and v.a[1] in ORDN:
        return ORDN[v.a[1]]
    if v.op == "cmp":
        a, b = val(v.a[0]), val(v.a[1])
        return None if a is None or b is None else sgn(a - b)
    x = val(mk("discr", v))
    return None if x is None else SIGN.get(x)


# ---- search over a range -------------------------------------------------------------------------------
def finds(cx):
    ks = [k for k in cx.keys(r"RangeTrait>::find(::|$| \[)") if "{closure" not in k and "mock" not in k]
    if not ks:
        raise Anchor("RangeTrait::find")
    return ks


PROBE = re.compile(r"CompareTrait::compare_entry$")


def r_find(cx, R):
    cx.rule(R, "a search keeps a part [lo, hi) of the range outside which no entry compares equal: it starts as the whole range, a probe is inside it at the range's offset, Less moves lo after the "
               "probe (sorted) or past that one entry (scan), Greater moves hi to it, Equal gives the probe's index in the range, and nothing is found only when the part is empty")
    for k in finds(cx):
        ts = [t for t in cx.traces(k, stop=[PROBE], paths=True) if t.kind == "ret"]
        for mode, name in ((1, "sorted"), (0, "scan")):
            mine = []
            for t in ts:
                od = [e for e in t.effs if e.kind == "call" and re.search(r"CompareTrait::ordered$", names_of(e))]
                if not od or od[0].args[0] is not A[1]:
                    raise Anchor("whether the comparator is ordered is not asked first")
                v = t.E.decide(t.st, eq(od[0].res, c(mode)))
                v = t.E.decide(t.st, od[0].res) if v is None else v if mode else v
                if v is None:
                    x = t.facts.get(od[0].res)
                    if x is None:
                        raise Anchor("a search which does not depend on the order")
                    v = bool(x) == bool(mode)
                elif mode == 0 and t.facts.get(od[0].res) is not None:
                    v = not t.facts[od[0].res]
                if v:
                    mine.append(t)
            if not mine:
                raise Anchor("%s: no path for the %s search" % (k, name))
            search(cx, R, k, name, mode, mine)


def search(cx, R, k, name, mode, ts):
    loops = {}
    for t in ts:
        ls = [l for l in t.effs if l.kind == "loop" and any(PROBE.search(e.name) for it in l.x["iters"] for e in flat(it.effs) if e.kind == "call")]
        if len(ls) > 1:
            raise Anchor("%s: %d loops probe" % (name, len(ls)))
        loops[t] = ls[0] if ls else None
        if not ls and any(e.kind == "call" and PROBE.search(e.name) for e in t.effs) and not any(l.kind == "loop" for l in t.effs):
            raise Anchor("%s: a probe outside the loop" % name)
    if not any(loops.values()):
        raise Anchor("%s: no loop probes" % name)
    counts, offs = set(), set()
    for t in ts:
        for e in flat(t.effs):
            if e.kind == "call" and re.search(r"RangeTrait::count$", names_of(e)) and e.args[0] is A[0]:
                counts.add(e.res)
            if e.kind == "call" and re.search(r"RangeTrait::offset$", names_of(e)) and e.args[0] is A[0]:
                offs.add(e.res)
    if not counts:
        raise Anchor("%s: the size of the range is not asked" % name)
    L = next(l for l in loops.values() if l)
    lvs = list(L.x["init"])
    lows = []
    for lv, i0 in L.x["init"].items():
        if i0.op == "c" and -1 <= i0.a[0] <= 1:
            lows.append((lv, i0.a[0]))
    # what each loop variable stands for: lo + k, hi + k, hi - lo + k
    cands = []
    import itertools
    opts = []
    for lv in lvs:
        i0 = L.x["init"][lv]
        o = []
        if (lv, i0.a[0] if i0.op == "c" else None) in lows:
            o.append(("lo", i0.a[0]))
        for count in counts:
            d = sub(i0, count)
            if d.op == "c" and -1 <= d.a[0] <= 1:
                o += [("hi", d.a[0]), ("size", d.a[0])]
        if not o:
            raise Anchor("%s: the loop carries %s" % (name, show(i0)[:80]))
        opts.append(o)
    for ch in itertools.product(*opts):
        cands.append(dict(zip(lvs, ch)))
    best = None
    for ch in cands:
        got = [x[0] for x in ch.values()]
        if len(set(got)) == 1 and got[0] == "size":
            continue
        r = judge(ts, loops, name, mode, ch, counts, offs)
        if best is None or len(r[1]) < len(best[1]):
            best = r
        if not best[1]:
            break
    if best is None:
        raise Anchor("%s: what the loop carries" % name)
    n, bad = best
    if isinstance(n, str):
        raise Anchor("%s: %s" % (name, n))
    for w in ("probe inside the part left", "Less", "Greater", "Equal", "not found only when nothing is left", "errors", "loop starts with the whole range"):
        msg = [m for x, m in bad if x == w]
        cx.ob(R, k, "%s: %s" % (name, w), not msg, msg[0] if msg else "")
    cx.ob(R, k, "%s: paths judged" % name, n > 0, "")


def judge(ts, loops, name, mode, ch, counts, offs):
    """-> (number of situations judged, [(what, message)])"""
    bad, n = [], 0

    def note(w, m):
        if len(bad) < 60:
            bad.append((w, m))
    states = [(lo, hi, cnt) for cnt in (0, 1, 2, 3, 4, 5, 7, 8) for lo in range(cnt + 1) for hi in range(lo, cnt + 1)]
    ks = set()                                  # the numbers this search is compared with
    for b in [t.bnd for t in loops] + [it.bnd for l in loops.values() if l for it in l.x["iters"]]:
        for x, (lo, hi, ex) in b.items():
            ks |= {abs(z) for z in [lo, hi] + list(ex) + ([lin_parts(x)[0]] if x.op == "lin" else []) if z is not None and 8 < abs(z) < 1 << 20}
    for K in sorted(ks)[:12]:
        cnt = 2 * K + 3
        for lo in (0, K - 1, K, K + 1):
            states += [(lo, hi, cnt) for hi in (cnt, cnt - 1, K, K + 1, lo + 1, lo + 2, lo + K) if lo <= hi <= cnt]
    have = {x[0] for x in ch.values()}

    def env_of(lo, hi, cnt):
        env = {x: cnt for x in counts}
        env.update({x: 1 << 24 for x in offs})
        for lv, (w, d) in ch.items():
            env[lv] = {"lo": lo, "hi": hi, "size": hi - lo}[w] + d
        return env

    def probes_of(effs):
        return [e for e in flat(effs) if e.kind == "call" and PROBE.search(e.name)]

    def after(it, env, res, okk, r):
        e2 = dict(env)
        e2[mk("discr", res)] = okk
        e2[mk("discr", pay(res, "Ok"))] = r
        return e2

    def want(lo, hi, m, r):
        if r == EQUAL:
            return None
        if mode:
            return (m + 1, hi) if r == LESS else (lo, m)
        return (lo + 1, hi) if m == lo else (lo, hi - 1) if m == hi - 1 else "neither end"

    for t, l in loops.items():
        tail = [e for e in t.effs if e is not l]
        ps = [e for e in tail if e.kind == "call" and PROBE.search(e.name)]
        if len(ps) > 1:
            return "several probes at the end", [("x", "")]
        for lo, hi, cnt in states:
            if "lo" not in have and lo != 0 or "hi" not in have and "size" not in have and hi != cnt:
                continue
            if l is None and (lo, hi) != (0, cnt):
                continue
            env = env_of(lo, hi, cnt)
            for okk, r in ((0, LESS), (0, EQUAL), (0, GREATER), (1, None)) if ps else ((0, None),):
                e2 = env
                m = None
                if ps:
                    m = evs(ps[0].args[1], env)
                    if m is None:
                        return "the probe is %s" % show(ps[0].args[1])[:100], [("x", "")]
                    m -= 1 << 24
                    e2 = after(t, env, ps[0].res, okk, r)
                    if r is None:
                        e2.pop(mk("discr", pay(ps[0].res, "Ok")))
                if not consistent(t.bnd, t.facts, e2):
                    continue
                n += 1
                v = t.val
                if ps:
                    if ps[0].args[0] is not A[1]:
                        return "another comparator", [("x", "")]
                    if not lo <= m < hi:
                        note("probe inside the part left", "with [%d, %d) left, entry %d is probed" % (lo, hi, m))
                        continue
                    if okk == 1:
                        if not (isagg(v) and v.a[1] == "Err"):
                            note("errors", "a failed comparison gives %s" % show(v)[:80])
                        continue
                if not okval_(v):
                    note("errors", "a search without error gives %s" % show(v)[:80])
                    continue
                x = fld(v, "0")
                if isagg(x) and x.a[1] == "None":
                    if ps and r == EQUAL:
                        note("Equal", "an equal entry is not found")
                    elif ps:
                        w = want(lo, hi, m, r)
                        if w == "neither end" or w[0] < w[1]:
                            note("not found only when nothing is left", "with [%d, %d) left, the search ends on entry %d" % (lo, hi, m))
                    elif lo < hi:
                        note("not found only when nothing is left", "with [%d, %d) left out of %d, the search ends" % (lo, hi, cnt))
                elif isagg(x) and x.a[1] == "Some":
                    if not ps or r != EQUAL:
                        note("Equal", "an entry which is not known to be equal is returned")
                        continue
                    y = evs(fld(x, "0"), e2)
                    if y is None:
                        return "the index returned is %s" % show(fld(x, "0"))[:100], [("x", "")]
                    if y != m:
                        note("Equal", "entry %d of the range is equal, %d is returned" % (m, y ))
                else:
                    return "the result is %s" % show(v)[:100], [("x", "")]
        if l is None:
            continue
        for it in l.x["iters"]:
            ps = probes_of(it.effs)
            if len(ps) != 1:
                return "an iteration probes %d times" % len(ps), [("x", "")]
            p = ps[0]
            for lo, hi, cnt in states:
                if "lo" not in have and lo != 0 or "hi" not in have and "size" not in have and hi != cnt:
                    continue
                env = env_of(lo, hi, cnt)
                m = evs(p.args[1], env)
                if m is None:
                    return "the probe is %s" % show(p.args[1])[:100], [("x", "")]
                m -= 1 << 24
                for okk, r in ((0, LESS), (0, EQUAL), (0, GREATER), (1, None)):
                    e2 = after(it, env, p.res, okk, r)
                    if r is None:
                        e2.pop(mk("discr", pay(p.res, "Ok")))
                    if not consistent(it.bnd, it.facts, e2):
                        continue
                    n += 1
                    if okk == 1:
                        note("errors", "the search goes on after a failed comparison")
                        continue
                    if not lo <= m < hi:
                        note("probe inside the part left", "with [%d, %d) left, entry %d is probed" % (lo, hi, m) if m > -(1 << 23) else "the probe is not at the range's offset")
                        continue
                    if r == EQUAL:
                        return "the search goes on after an equal entry", [("x", "")]
                    w = want(lo, hi, m, r)
                    nx = {}
                    for lv, (q, d) in ch.items():
                        y = evs(it.next.get(lv, lv), e2)
                        if y is None:
                            return "the loop goes on with %s" % show(it.next.get(lv, lv))[:100], [("x", "")]
                        nx.setdefault(q, set()).add(y - d)
                    what = "Less" if r == LESS else "Greater"
                    if w == "neither end":
                        note(what, "with [%d, %d) left, a scan probes entry %d" % (lo, hi, m))
                        continue
                    exp = {"lo": w[0], "hi": w[1], "size": w[1] - w[0]}
                    for q, ys in nx.items():
                        if ys != {exp[q]}:
                            note(what, "with [%d, %d) left and entry %d %s, %s becomes %s (expected %d)" % (lo, hi, m, what, q, sorted(ys), exp[q]))
                    if "lo" not in nx and w[0] != 0:
                        note(what, "with [%d, %d) left and entry %d %s, the first part stays" % (lo, hi, m, what))
                    if "hi" not in nx and "size" not in nx and w[1] != cnt:
                        note(what, "with [%d, %d) left and entry %d %s, the last part stays" % (lo, hi, m, what))
    return n, bad


def okval_(v):
    return isagg(v) and v.a[1] == "Ok"


# ---- an entry against the values asked ------------------------------------------------------------------
def r_compare_entry(cx, R):
    cx.rule(R, "an entry is compared with the values asked property by property in the order given, the entry's value on the left; the first difference decides, Equal only when all are equal; "
               "a comparison on properties does not claim an order nobody promised")
    k = cx.m("PropertyCompare", "compare_entry", "CompareTrait")
    nm, vl, bd, od = fieldt(cx, "PropertyCompare", LAY, r"String"), fieldt(cx, "PropertyCompare", LAY, r"common::value::Value"), fieldt(cx, "PropertyCompare", LAY, "Builder"), \
        fieldt(cx, "PropertyCompare", LAY, r"^bool$")
    names, values = F(A[0], nm), F(A[0], vl)
    GV, PC, CE = re.compile(r"EntryTrait.*::get_value$"), re.compile(r"RawValue::partial_cmp$"), re.compile(r"create_entry$")
    n = 0
    late = None
    for t in cx.traces(k, stop=[GV, PC, CE], paths=True):
        ce = [e for e in flat(t.effs) if e.kind == "call" and CE.search(e.name)]
        for e in ce:
            cx.ob(R, k, "the entry asked", e.args[1] is A[1], "entry %s is compared" % show(e.args[1])[:80])
        if t.kind != "ret" or not ce:
            continue
        if t.E.decide(t.st, eq(mk("discr", ce[0].res), c(1))) is True:
            cx.ob(R, k, "errors", isagg(t.val, None, "Err"), "a failed read gives %s" % show(t.val)[:80])
            continue
        ent = pay(pay(ce[0].res, "Ok"), "Some")
        ls = [l for l in t.effs if l.kind == "loop"]
        if len(ls) != 1:
            raise Anchor("compare_entry: %d loops" % len(ls))
        l = ls[0]
        env = {}
        for lv, i0 in l.x["init"].items():
            if all(sub(it.next.get(lv, lv), lv) is c(1) for it in l.x["iters"]):
                if i0.op != "c":
                    late = "compare_entry goes through %s" % show(i0)[:100]
                    continue
                cx.ob(R, k, "from the first property", i0 is c(0), "starts at the property %s" % show(i0))
                env[lv] = 5
            else:
                late = "compare_entry carries %s" % show(i0)[:100]

        def step(st, effs, last):
            g = [e for e in flat(effs) if e.kind == "call" and GV.search(e.name)]
            p = [e for e in flat(effs) if e.kind == "call" and PC.search(e.name)]
            if not g:
                return None
            if len(g) != 1 or len(p) > 1:
                raise Anchor("compare_entry: one value, one comparison")
            nmx = unbox(g[0].args[1])
            ok1 = nmx.op == "idx" and nmx.a[0] is names and evs(nmx.a[1], env) is not None
            if not ok1 or not contains(g[0].args[0], lambda x: x is ent):
                raise Anchor("compare_entry: the value read is %s of %s" % (show(nmx)[:80], show(g[0].args[0])[:80]))
            if not p:
                return g[0], None
            if not contains(p[0].args[0], lambda x: x is g[0].res):
                raise Anchor("compare_entry: compares %s" % show(p[0].args[0])[:100])
            vx = unbox(p[0].args[1])
            if not (vx.op == "idx" and vx.a[0] is values):
                raise Anchor("compare_entry: compares with %s" % show(vx)[:100])
            cx.ob(R, k, "each value with its own property", evs(vx.a[1], env) == evs(nmx.a[1], env), "property %s is compared with value %s" % (show(nmx.a[1]), show(vx.a[1])))
            return g[0], p[0]
        for it in l.x["iters"]:
            s = step(it.st, it.effs, False)
            if s is None or s[1] is None:
                cx.ob(R, k, "every property is compared", False, "a property is passed over")
                continue
            n += 1
            o = pay(pay(s[1].res, "Ok"), "Some")
            r = [x for x in (LESS, EQUAL, GREATER) if consistent(it.bnd, it.facts, {mk("discr", o): x, mk("discr", s[1].res): 0, mk("discr", pay(s[1].res, "Ok")): 1})]
            cx.ob(R, k, "goes on after Equal only", set(r) <= {EQUAL}, "goes on after %s" % r)
            cx.ob(R, k, "errors", not consistent(it.bnd, it.facts, {mk("discr", s[1].res): 1}), "goes on after a failed comparison")
        tail = [e for e in t.effs if e is not l]
        s = step(t.st, tail, True)
        v = t.val
        if s is None:
            if isagg(v, None, "Err"):
                late = "compare_entry fails with %s" % show(v)[:80]
                continue
            o = fld(v, "0")
            cx.ob(R, k, "Equal when all are", isagg(o, None, "Equal"), "when no property differs the answer is %s" % show(o)[:80])
            done = [lv for lv in env if t.E.decide(t.st, le(mk_len(names), lv)) is True or t.E.decide(t.st, le(mk_len(values), lv)) is True]
            cx.ob(R, k, "every property is compared", bool(done), "answers before every property is compared")
            continue
        g, p = s
        e1 = t.E.decide(t.st, eq(mk("discr", g.res), c(1))) is True or (p is not None and t.E.decide(t.st, eq(mk("discr", p.res), c(1))) is True)
        if e1:
            cx.ob(R, k, "errors", isagg(v, None, "Err"), "a failed read gives %s" % show(v)[:80])
            continue
        if p is None:
            late = "compare_entry ends after %s" % show(g.res)[:80]
            continue
        if not okval_(v):
            late = "compare_entry answers %s" % show(v)[:80]
            continue
        n += 1
        o = pay(pay(p.res, "Ok"), "Some")
        for x in (LESS, EQUAL, GREATER):
            if not consistent(t.bnd, t.facts, {mk("discr", o): x, mk("discr", p.res): 0, mk("discr", pay(p.res, "Ok")): 1}):
                continue
            got = order_of(fld(v, "0"), lambda z: x if z is mk("discr", o) else None)
            if got is None:
                late = "compare_entry answers %s" % show(v)[:80]
                continue
            cx.ob(R, k, "the first difference decides", x != EQUAL and got == SIGN[x], "the property compares %s, the answer is %s" % (SIGN[x], got))
    cx.ob(R, k, "comparisons", n >= 2, "")
    k = cx.m("PropertyCompare", "ordered", "CompareTrait")
    vals = {t.val for t in cx.traces(k) if t.kind == "ret"}
    k2 = cx.m("PropertyCompare", "new", "")
    for t in cx.traces(k2):
        if t.kind != "ret":
            continue
        v = t.val
        cx.ob(R, k2, "names", contains(fld(v, nm), lambda x: x is A[1]), "names are %s" % show(fld(v, nm))[:80])
        cx.ob(R, k2, "values", contains(fld(v, vl), lambda x: x is A[2]), "values are %s" % show(fld(v, vl))[:80])
        cx.ob(R, k2, "builder", contains(fld(v, bd), lambda x: x is A[0]), "the builder is %s" % show(fld(v, bd))[:80])
        o = fld(v, od)
        for x in vals:
            if x is F(A[0], od):
                cx.ob(R, k2, "not said ordered", o is not c(1), "a comparison on any properties is said ordered")
            elif x.op == "c":
                cx.ob(R, k, "not said ordered", x is c(0), "a comparison on any properties is said ordered")
    if late:
        raise Anchor(late)


# ---- values, as the writer orders them --------------------------------------------------------------------
UNS = [0, 1, 2, 127, 128, 255, 256, 65535, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
SIG = [0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 32767, -32768, (1 << 31) - 1, -(1 << 31), (1 << 63) - 1, -(1 << 63), 1 << 32, -(1 << 32)]


def words(t, leaf):
    """terms which are the current value of the word `leaf`"""
    r = set()
    for e in flat(t.effs):
        if e.kind == "call" and isinstance(e.res, T) and any(contains(a, lambda x: x is leaf) for a in e.args):
            r.add(e.res)
    for src in [t.val] + list(t.bnd):
        for x in walk(src) if isinstance(src, T) else ():
            if x.op in ("call", "pure") and contains(x, lambda z: z is leaf) and x is not leaf:
                r.add(x)
    return r


def numeric(t, a, b, xs, ys):
    """compare the ordering computed on this trace (Some(o)) with the order of numbers a (in xs) and b (in ys): (judged, message or None); None when not understood"""
    n = 0
    for x in xs:
        for y in ys:
            env = {z: x for z in a}
            env.update({z: y for z in b})
            if not consistent(t.bnd, t.facts, env):
                continue
            v = t.val
            if not isagg(v, None, "Some"):
                return n, "None"
            o = order_of(fld(v, "0"), lambda z: evs(z, env))
            if o is None:
                return None
            n += 1
            if o != sgn(x - y):
                return n, "%d compares with %d as %d" % (x, y, o)
    return n, None


def r_writer_cmp(cx, R):
    cx.rule(R, "the writer orders values as numbers for integers (also those given later), and arrays by the bytes kept in the entry, then by the number of the rest, then by size: for each pair of "
               "kinds of values the term compared is evaluated over the relations of these parts")
    ks = [x for x in cx.keys(r"directory_pack::value::Value as .*PartialOrd.*::partial_cmp$") if "creator" in x]
    if len(ks) != 1:
        raise Anchor("order of values")
    k = ks[0]
    V = adt(cx, "Value", "creator::directory_pack::value")["variants"]
    names = [v["name"] for v in V]
    KIND = {"Unsigned": ("u", 0), "UnsignedWord": ("u", 1), "Signed": ("s", 0), "SignedWord": ("s", 1), "IndirectArray": ("i", 0), "Array": ("a", 0), "Array0": ("a", 0), "Array1": ("a", 0), "Array2": ("a", 0)}
    if not set(KIND) <= set(names):
        raise Anchor("kinds of values: %s" % names)
    late = None
    for i, p in enumerate(names):
        for j, q in enumerate(names):
            if p not in KIND or q not in KIND or KIND[p][0] != KIND[q][0]:
                continue
            kind = KIND[p][0]
            a, b = mk("pl", A[0], p, "0"), mk("pl", A[1], q, "0")
            ts = [t for t in cx.traces(k, stop=[r"ValueHandle::get$"], paths=True, assume=[(eq(mk("discr", A[0]), c(i)), True), (eq(mk("discr", A[1]), c(j)), True)])]
            inst = "%s, %s" % (p, q)
            seen = 0
            for t in ts:
                if t.kind != "ret":
                    cx.ob(R, k, inst, False, "comparing %s with %s panics" % (p, q)) if t.kind == "panic" and kind in "us" else None
                    continue
                if kind in "us":
                    s = UNS if kind == "u" else SIG
                    r = numeric(t, words(t, a) if KIND[p][1] else {a}, words(t, b) if KIND[q][1] else {b}, s, s)
                    if r is None:
                        late = "%s: %s" % (inst, show(t.val)[:100])
                        continue
                    seen += r[0]
                    cx.ob(R, k, inst, r[1] is None, r[1] or "")
                    continue
                HG = re.compile(r"ValueHandle::get$")

                def got(v):
                    r = {z for src in [t.val] + list(t.bnd) for z in walk(src) if z.op in ("call", "pure") and HG.search(str(z.a[0])) and contains(z, lambda y: y is v)}
                    for e in flat(t.effs):
                        if e.kind == "call" and HG.search(e.name) and contains(e.args[0], lambda y: y is v):
                            r.add(e.res)
                    return r
                if kind == "i":
                    r = numeric(t, got(a), got(b), UNS, UNS)
                    if r is None:
                        late = "%s: %s" % (inst, show(t.val)[:100])
                        continue
                    seen += r[0]
                    cx.ob(R, k, inst, r[1] is None, r[1] or "")
                    continue
                import itertools
                for d, h, s in itertools.product((-1, 0, 1), repeat=3):
                    env = {fld(a, "data"): 5 + d, fld(b, "data"): 5, fld(a, "size"): 5 + s, fld(b, "size"): 5}
                    env.update({z: 5 + h for z in got(fld(a, "value_id"))})
                    env.update({z: 5 for z in got(fld(b, "value_id"))})
                    if not consistent(t.bnd, t.facts, env):
                        continue
                    v = t.val
                    o = order_of(fld(v, "0"), lambda z: evs(z, env)) if isagg(v, None, "Some") else "None"
                    if o is None:
                        late = "%s: %s" % (inst, show(v)[:100])
                        continue
                    if o == "None" and not isagg(v, None, "None"):
                        late = "%s: %s" % (inst, show(v)[:100])
                        continue
                    seen += 1
                    w = d or h or s
                    cx.ob(R, k, inst, o == w, "bytes kept compare %d, numbers of the rest %d, sizes %d: the order is %s" % (d, h, s, o))
            if late is None:
                cx.ob(R, k, "%s: comparable" % inst, seen > 0, "")
    if late:
        raise Anchor(late)


def r_entry_cmp(cx, R):
    cx.rule(R, "entries are compared by their sort properties in order, this entry's value on the left; the first difference decides and Equal is only when none differs; a boxed entry as the entry itself")
    ks = cx.keys(r"<Self as .*FullEntryTrait.*>::compare(::|$| \[)")
    if not ks:
        raise Anchor("FullEntryTrait::compare")
    VA, PC = re.compile(r"EntryTrait.*::value$"), re.compile(r"partial_cmp$|PartialOrd::(lt|le|gt|ge)$")
    late = None
    for k in [x for x in ks if "{closure" not in x]:
        n = 0
        for t in cx.traces(k, stop=[VA, PC], paths=True):
            if t.kind != "ret":
                continue
            ls = [l for l in t.effs if l.kind == "loop"]
            if not ls:
                pc = [e for e in t.effs if e.kind == "call" and PC.search(e.name)]
                if len(pc) == 1 and consistent(t.bnd, t.facts, {mk("discr", pay(pc[0].res, "Some")): EQUAL, mk("discr", pc[0].res): 1}) and not any(x.op == "more" and not b for x, b in t.facts.items()):
                    cx.ob(R, k, "every sort property", False, "answers %s when the first property is equal" % show(t.val)[:60])
                    continue
            if len(ls) != 1:
                late = "compare: %d loops" % len(ls)
                continue
            l = ls[0]
            src = [lv for lv, i0 in l.x["init"].items() if contains(i0, lambda x: x is A[1])]
            if len(src) != 1 or len(l.x["init"]) != 1:
                raise Anchor("compare: loop over %s" % [show(x)[:60] for x in l.x["init"].values()])
            i0 = l.x["init"][src[0]]
            cx.ob(R, k, "every sort property", not any(isagg(y) and y.a[0] and RESTRICT.match(y.a[0]) or y.op == "call" and re.search(r"Iterator::(skip|take|step_by|rev|filter)$", y.a[0]) for y in walk(i0)),
                  "the properties are %s" % show(i0)[:100])

            def step(effs):
                va = [e for e in flat(effs) if e.kind == "call" and VA.search(e.name)]
                pc = [e for e in flat(effs) if e.kind == "call" and PC.search(e.name)]
                if not va and not pc:
                    return None
                if len(pc) != 1:
                    raise Anchor("compare: %d comparisons of a property" % len(pc))
                me = [e for e in va if contains(e.args[0], lambda x: x is A[0])]
                ot = [e for e in va if contains(e.args[0], lambda x: x is A[2])]
                if len(me) != 1 or len(ot) != 1 or len(va) != 2:
                    raise Anchor("compare: values compared")
                p, q = unbox(me[0].args[1]), unbox(ot[0].args[1])
                cx.ob(R, k, "the same property of both", p is q and contains(p, lambda x: x is src[0]), "%s against %s" % (show(p)[:60], show(q)[:60]))
                x, y = pc[0].args[0], pc[0].args[1]
                if contains(x, lambda z: z is me[0].res) and contains(y, lambda z: z is ot[0].res):
                    return pc[0], 1
                if contains(y, lambda z: z is me[0].res) and contains(x, lambda z: z is ot[0].res):
                    return pc[0], -1
                raise Anchor("compare: %s with %s" % (show(x)[:60], show(y)[:60]))
            for it in l.x["iters"]:
                s = step(it.effs)
                if s is None:
                    cx.ob(R, k, "every sort property", False, "a property is passed over")
                    continue
                n += 1
                o = pay(s[0].res, "Some")
                r = [x for x in (LESS, EQUAL, GREATER) if consistent(it.bnd, it.facts, {mk("discr", o): x, mk("discr", s[0].res): 1})]
                cx.ob(R, k, "goes on after Equal only", set(r) <= {EQUAL}, "goes on after %s" % r)
            tail = [e for e in t.effs if e is not l]
            s = step(tail)
            v = t.val
            if s is None:
                n += 1
                cx.ob(R, k, "Equal when all are", isagg(v, None, "Equal") and any(x is mk("more", src[0]) and not b for x, b in t.facts.items()), "answers %s when properties may be left" % show(v)[:60])
                continue
            o = pay(s[0].res, "Some")
            for x in (LESS, EQUAL, GREATER):
                if not consistent(t.bnd, t.facts, {mk("discr", o): x, mk("discr", s[0].res): 1}):
                    continue
                n += 1
                got = order_of(v, lambda z: x if z is mk("discr", o) else None)
                if got is None:
                    late = "compare answers %s" % show(v)[:80]
                    continue
                cx.ob(R, k, "the first difference decides", x != EQUAL and got == SIGN[x] * s[1], "the property compares %s, the answer is %s" % (SIGN[x] * s[1], got))
        cx.ob(R, k, "comparisons", n >= 3, "")
    for k in [x for x in cx.keys(r"Box<T> as .*FullEntryTrait.*>::compare(::|$| \[)") if "{closure" not in x]:
        for t in cx.traces(k, stop=[r"FullEntryTrait.*::compare$"]):
            e = calls(t, re.compile(r"FullEntryTrait.*::compare$"))
            if len(e) != 1 or t.kind != "ret":
                raise Anchor("comparison of boxed entries")
            cx.ob(R, k, "as the entries", t.val is e[0].res and unbox(e[0].args[0]) is A[0] and e[0].args[1] is A[1] and unbox(e[0].args[2]) is A[2], "compares %s" % ", ".join(show(x)[:40] for x in e[0].args))
    if late:
        raise Anchor(late)


# ---- sorting ------------------------------------------------------------------------------------------------
CMP = re.compile(r"FullEntryTrait.*::compare$")
SORTK = re.compile(r"::(par_)?sort(_unstable)?(_by|_by_key|_by_cached_key)?$")
SORT = re.compile(r"::(par_)?sort(_unstable)?(_by)?$")
IDX = re.compile(r"::set_entry_idx$")


def state_of(v):
    """what v is a later state of"""
    while v.op == "hv" or v.op in ("slice",):
        v = v.a[0]
    return v


def entries_field(cx):
    for f, ty in [(x[0], x[1]) for x in adt(cx, "EntryStore", "creator::directory_pack::entry_store")["variants"][0]["fields"]]:
        if re.search(r"Vec<", ty):
            return f
    raise Anchor("the entries of a store")


def sort_keys_of(v):
    return contains(v, lambda x: x.op == "pl" and x.a[1] == "Some" and x.a[0].op == "fld" and x.a[0].a[1] == "sort_keys")


def order_fact(st, res):
    return [x for x in (LESS, EQUAL, GREATER) if consistent(st.bnd, st.facts, {mk("discr", res): x})]


def pair_of(e, l):
    """(+1: an entry then the next one, -1: the other way round) compared by the call e in the loop l; None"""
    x, y = unbox(e.args[0]), unbox(e.args[2])
    if x.op != "idx" or y.op != "idx":
        return None
    if x.a[0] is y.a[0] and x.a[0].op == "elem":
        w = l.x["init"].get(x.a[0].a[0])
        if w is None or not (w.op in ("call", "pure") and re.search(r"::windows$", str(w.a[0])) and w.a[1][1] is c(2)):
            return None
        d = sub(y.a[1], x.a[1])
        return 1 if d is c(1) else -1 if d is c(-1) else None
    if state_of(x.a[0]) is not state_of(y.a[0]):
        return None
    env = {}
    for lv, i0 in l.x["init"].items():
        if i0.op == "c" and all(sub(it.next.get(lv, lv), lv) is c(1) for it in l.x["iters"]):
            env[lv] = 10 + i0.a[0]
    p, q = evs(x.a[1], env), evs(y.a[1], env)
    if p is None or q is None or min(p, q) not in (10, 9):
        return None
    return 1 if q - p == 1 else -1 if p - q == 1 else None


def whole(t, l):
    """leaving the loop on trace t, every pair was looked at"""
    for lv, i0 in l.x["init"].items():
        if i0.op in ("call", "pure") and re.search(r"Iterator::(skip|take|step_by|filter|skip_while|take_while)$", str(i0.a[0])) and contains(i0, lambda x: x.op in ("call", "pure") and re.search(r"::windows$", str(x.a[0]))):
            return False
        if i0.op in ("call", "pure") and re.search(r"::windows$", str(i0.a[0])):
            return any(x is mk("more", lv) and not b for x, b in t.facts.items())
    return None


def first_time(t):
    """values of the loop variables a trace decides on, when its loops are entered"""
    lvs = {y for x in list(t.bnd) + list(t.facts) for y in walk(x) if y.op == "lv"}
    return {lv: l.x["init"][lv].a[0] for l in flat_loops(t.effs) for lv in l.x["init"] if lv in lvs and l.x["init"][lv].op == "c"}


def in_windows(cx, R, k, t):
    """entries of a window are taken within its size"""
    ls = flat_loops(t.effs)
    for l in ls:
        for lv, w in l.x["init"].items():
            if w.op in ("call", "pure") and re.search(r"::(r?chunks(_exact)?|array_chunks|step_by)$", str(w.a[0])):
                cx.ob(R, k, "every pair of neighbours", False, "entries are compared by %s: not every one with the next" % str(w.a[0]).split("::")[-1])
                continue
            if not (w.op in ("call", "pure") and re.search(r"::windows$", str(w.a[0])) and w.a[1][1].op == "c"):
                continue
            used = {x.a[1].a[0] for m in ls for it in m.x["iters"] for e in flat(it.effs) for a in e.args for x in walk(a)
                    if x.op == "idx" and x.a[0] is mk("elem", lv) and x.a[1].op == "c"}
            used |= {x.a[1].a[0] for e in flat(t.effs) for a in e.args for x in walk(a) if x.op == "idx" and x.a[0] is mk("elem", lv) and x.a[1].op == "c"}
            if used:
                cx.ob(R, k, "entries of a window are in it", max(used) < w.a[1][1].a[0], "entry %d of windows of %d entries: panics" % (max(used), w.a[1][1].a[0]))
                cx.ob(R, k, "the last entries are compared too", max(used) >= w.a[1][1].a[0] - 1, "windows of %d entries, of which only the first %d are compared: the last ones never are" % (w.a[1][1].a[0], max(used) + 1))


def r_sort(cx, R):
    cx.rule(R, "a store declared sorted is sorted with the comparison of its entries on its sort properties; it is said sorted only after every pair of neighbours was compared and none is Greater")
    ent = entries_field(cx)
    k = [x for x in cx.keys(r"EntryStoreTrait>::sort(::|$| \[)") if "{closure" not in x]
    k2 = [x for x in cx.keys(r"EntryStoreTrait>::is_sorted(::|$| \[)") if "{closure" not in x]
    if len(k) != 1:
        raise Anchor("EntryStoreTrait::sort")
    k = k[0]
    late = None
    E0 = F(A[0], ent)
    n = 0
    for kk in [k] + k2:
        for t in cx.traces(kk, stop=[CMP, IDX], paths=True):
            in_windows(cx, R, kk, t)
            if kk == k and t.kind == "panic":
                cx.ob(R, kk, "entries which depend on each other are sorted again", not consistent(t.bnd, t.facts, first_time(t)), "the creation panics when the entries are not sorted after the first time")
    for t in cx.traces(k, stop=[CMP, IDX], paths=True):
        if t.kind != "ret":
            continue
        none = [x for x in t.bnd if x.op == "discr" and x.a[0].op == "fld" and x.a[0].a[1] == "sort_keys"]
        if not none:
            raise Anchor("sort does not look at the sort properties")
        nokeys = t.bnd[none[0]][:2] == (0, 0)
        alls = flat_with_next(t.effs)
        so = [(e, nx) for e, nx in alls if e.kind == "call" and SORT.search(e.name)]
        if nokeys:
            cx.ob(R, k, "stores without sort property keep their order", not so, "entries are sorted")
            continue
        top = [e for e in t.effs if e.kind == "call" and SORT.search(e.name)]
        if not so:
            cx.ob(R, k, "entries are sorted", False, "the entries of a sorted store are not sorted")
            continue
        cx.ob(R, k, "entries are sorted", bool(top), "they may not be sorted") if any(l.kind == "loop" for l in t.effs) else None
        for e, nx in so:
            n += 1
            s = state_of(e.args[0])
            if s is not E0 and not (s.op == "lv"):
                cx.ob(R, k, "all the entries", not contains(s, lambda x: x is E0), "sorts %s" % show(e.args[0])[:100])
                late = "sorts %s" % show(e.args[0])[:100]
                continue
            cx.ob(R, k, "all the entries", e.args[0].op != "slice", "sorts only %s" % show(e.args[0])[:100])
            if not e.name.endswith("_by"):
                late = "sorted by %s" % e.name
                continue
            crs = [x for it in nx.x["iters"] for x in flat(it.effs) if x.kind == "cret"] if nx is not None and nx.kind == "loop" else []
            if not crs:
                late = "the order given to %s" % e.name
            for it in nx.x["iters"] if crs else ():
                cm = [x for x in flat(it.effs) if x.kind == "call" and CMP.search(names_of(x).split()[-1])]
                cr = [x for x in flat(it.effs) if x.kind == "cret"]
                if len(cm) != 1 or len(cr) != 1:
                    late = "the order given to %s" % e.name
                    continue
                x, y = unbox(cm[0].args[0]), unbox(cm[0].args[2])
                if x.op != "carg" or y.op != "carg":
                    late = "entries are ordered by %s, %s" % (show(x)[:60], show(y)[:60])
                    continue
                way = 1 if (x.a[1], y.a[1]) == (0, 1) else -1 if (x.a[1], y.a[1]) == (1, 0) else 0
                cx.ob(R, k, "by the sort properties", sort_keys_of(cm[0].args[1]), "by %s" % show(cm[0].args[1])[:100])
                for o in order_fact(it, cm[0].res):
                    got = order_of(cr[0].args[-1], lambda z: o if z is mk("discr", cm[0].res) else None)
                    if got is None:
                        late = "entries are ordered by %s" % show(cr[0].args[-1])[:100]
                        break
                    cx.ob(R, k, "in the order of the comparison", way != 0 and got == SIGN[o] * way, "the entries compare %d, the sort is told %d" % (SIGN[o], got * way))
    cx.ob(R, k, "sorts", n >= 1, "")
    for k in k2:
        for t in cx.traces(k, stop=[CMP], paths=True):
            if t.kind != "ret":
                continue
            nk = [x for x in t.bnd if x.op == "discr" and x.a[0].op == "fld" and x.a[0].a[1] == "sort_keys"]
            v = t.val
            if v.op != "c":
                late = "is_sorted answers %s" % show(v)[:80]
                continue
            if nk and t.bnd[nk[0]][:2] == (0, 0):
                cx.ob(R, k, "a store without sort property is sorted", v is c(1), "answers no")
                continue
            ls = [l for l in t.effs if l.kind == "loop" and any(e.kind == "call" and CMP.search(e.name) for it in l.x["iters"] for e in flat(it.effs))]
            tailc = [e for e in t.effs if e.kind == "call" and CMP.search(e.name)]
            if v is c(1):
                if not ls:
                    small = t.E.decide(t.st, le(mk_len(E0), c(1)))
                    cx.ob(R, k, "sorted only when compared", small is True, "is said sorted without comparing its entries")
                    continue
                l = ls[0]
                for it in l.x["iters"]:
                    cs = [e for e in flat(it.effs) if e.kind == "call" and CMP.search(e.name)]
                    w = pair_of(cs[0], l) if len(cs) == 1 else None
                    if w is None:
                        late = "is_sorted: which entries are compared"
                        continue
                    cx.ob(R, k, "by the sort properties", sort_keys_of(cs[0].args[1]), "by %s" % show(cs[0].args[1])[:100])
                    bad = [o for o in order_fact(it, cs[0].res) if SIGN[o] * w > 0]
                    cx.ob(R, k, "no pair in the wrong order", not bad, "a pair of neighbours may be in decreasing order")
                w = whole(t, l)
                if w is None:
                    w = any(t.E.decide(t.st, le(sub(mk_len(E0), c(1)), lv)) is True or t.E.decide(t.st, le(mk_len(E0), lv)) is True for lv in l.x["init"])
                    if not w:
                        late = "is_sorted: whether every pair is compared"
                        continue
                cx.ob(R, k, "every pair of neighbours", w, "answers before every pair is compared")
            else:
                if len(tailc) != 1 or not ls:
                    late = "is_sorted answers no"
                    continue
                w = pair_of(tailc[0], ls[0])
                if w is None:
                    late = "is_sorted: which entries are compared"
                    continue
                bad = [o for o in order_fact(t, tailc[0].res) if SIGN[o] * w < 0]
                cx.ob(R, k, "not sorted only for a pair in the wrong order", not bad, "pairs in increasing order are said not sorted")
    kf = cx.m("DirectoryPackCreator", "finalize")
    for t in cx.traces(kf, stop=[r"is_sorted$", r"EntryStoreTrait.*::sort$", r"::finalize$"]):
        if t.kind != "panic":
            continue
        init = first_time(t)
        again = any(re.search(r"is_sorted", show(x)) for x in t.facts)
        if again:
            cx.ob(R, kf, "stores which depend on each other are sorted again", not consistent(t.bnd, t.facts, init), "the creation panics when the stores are not all sorted after the first time")
    if late:
        raise Anchor(late)


def flat_with_next(effs):
    r = []
    for i, e in enumerate(effs):
        r.append((e, effs[i + 1] if i + 1 < len(effs) else None))
        if e.kind == "loop":
            for it in e.x["iters"]:
                r += flat_with_next(it.effs)
    return r


def r_order(cx, R):
    cx.rule(R, "in a directory pack the values are numbered before any store is sorted, every store is sorted, and the stores are written only after all were found sorted since the last sort")
    k = cx.m("DirectoryPackCreator", "finalize", "")
    SO, IS, FI, VF = (re.compile(x) for x in (r"EntryStoreTrait::sort$", r"EntryStoreTrait::is_sorted$", r"EntryStoreTrait::finalize$", r"StoreHandle::finalize$|ValueStore(Trait)?::finalize$"))
    late = None
    n = 0
    for t in cx.traces(k, stop=[SO, IS, FI, VF], paths=True):
        if t.kind != "ret" or isagg(t.val, None, "Err"):
            continue
        n += 1

        def first(p, effs=t.effs):
            return next((i for i, e in enumerate(effs) if any(x.kind == "call" and p.search(x.name) for x in flat([e]))), None)

        def last(p, effs=t.effs):
            return next((i for i in range(len(effs) - 1, -1, -1) if any(x.kind == "call" and p.search(x.name) for x in flat([effs[i]]))), None)
        vf, so, fi, iz = last(VF), first(SO), first(FI), last(IS)
        if so is None:
            cx.ob(R, k, "stores are sorted", False, "no store is sorted")
            continue
        if fi is None:
            late = "stores are not finalized"
            continue
        if vf is None:
            late = "values are not numbered"
        else:
            cx.ob(R, k, "values numbered before sorting", vf < so, "stores are sorted before values have their numbers")
        cx.ob(R, k, "sorted before they are finalized", last(SO) < fi, "a store is sorted after one is finalized")
        e = t.effs[so]
        if e.kind != "loop":
            late = "stores are sorted outside a loop"
            continue
        if t.E.decide(t.st, lt(c(0), mk_len(F(A[0], "entry_stores")))) is False:
            continue
        vi = None
        org = origins(t)
        for seq in {x.a[0] for it in e.x["iters"] for z in flat(it.effs) if z.kind == "call" and SO.search(z.name) for y in (z.args[0], org(z.args[0])) for x in walk(y) if x.op == "idx"}:
            vi = visit(t, e, seq, org)
            if vi is not None:
                break
        if vi is None:
            late = "which stores are sorted"
        else:
            cx.ob(R, k, "every store is sorted", vi[0] is True, "some stores are not sorted")
        if iz is None:
            cx.ob(R, k, "found sorted after the last sort", False, "positions may have moved by another store's sort: nothing checks the stores are still sorted")
            continue
        # the last pass of is_sorted, all true, nothing sorted after it
        lp = t.effs[iz]
        cx.ob(R, k, "found sorted after the last sort", iz > last(SO) or lp.kind == "loop" and iz == last(SO), "stores are sorted again after they were found sorted")
        if lp.kind == "loop" and any(x.kind == "call" and SO.search(x.name) for x in flat([lp])):
            late = "the stores are found sorted inside the loop which sorts them"
            continue
        if lp.kind != "loop":
            d = t.E.decide(t.st, lp.res) if isinstance(lp.res, T) else None
            if d is True or t.facts.get(lp.res) in (1, True):
                cx.ob(R, k, "every store is found sorted", False, "the stores are written as soon as one is found sorted")
            elif not (lp.res.op == "c"):
                late = "the stores are found sorted outside a loop"
            continue
        if lp.kind == "loop":
            vi = None
            for seq in {x.a[0] for it in lp.x["iters"] for z in flat(it.effs) if z.kind == "call" and IS.search(z.name) for y in (z.args[0], org(z.args[0])) for x in walk(y) if x.op == "idx"}:
                vi = visit(t, lp, seq, org)
                if vi is not None:
                    break
            if vi is None:
                late = "which stores are found sorted"
            else:
                cx.ob(R, k, "every store is found sorted", vi[0] is True, "some stores are not looked at")
            for it in lp.x["iters"]:
                for x in it.effs:
                    if x.kind == "call" and IS.search(x.name):
                        d = it.st and t.E.decide(it.st, x.res)
                        fct = it.facts.get(x.res)
                        cx.ob(R, k, "every store is found sorted", d is True or fct in (1, True), "goes on past a store which is not sorted")
    cx.ob(R, k, "paths", n >= 1, "")
    if late:
        raise Anchor(late)


def r_rank(cx, R):
    cx.rule(R, "the places of the values of a store follow the order of their whole bytes: before they are numbered, one after the other, all the keys of the store are sorted by the bytes of their value, "
               "ascending, on every path, and nothing moves them after")
    B = base_fields(cx)
    late = None
    for ty in ("PlainValueStore", "IndexedValueStore"):
        k = mth(cx, VSC + "::" + ty + r"::finalize$")
        n = 0
        for t in cx.traces(k, paths=True):
            if t.kind != "ret":
                continue
            l, K, E, keys, P = numbering(t, k, B)
            n += 1
            if ty == "PlainValueStore":
                got_ = [i.next.get(E) for i in l.x["iters"]]
                sh = [x for x in got_ if x is not None and x.op == "upd" and x.a[2].op != "lv"]
                cx.ob(R, k, "equal values share a place", bool(sh), "equal values get different places: entries with equal keys are told apart by them before their other sort properties")
            f0, d0 = fld(A[0], B["keys"]), fld(A[0], B["data"])
            how = []
            v = keys
            while v.op == "hv":
                how.append(str(v.a[1]))
                v = v.a[0]
            if v.op == "upd" and isinstance(v.a[1], tuple) and v.a[1][0] == "slice" and v.a[0] is f0:
                cx.ob(R, k, "all the keys", False, "sorts only those from %s to %s" % (show(v.a[1][1]), show(v.a[1][2])))
                continue
            if v is not f0:
                late = "%s: the keys numbered are %s" % (ty, show(keys)[:80])
                continue
            at = next(i for i, e in enumerate(t.effs) if e is l)
            so = [(e, t.effs[i + 1] if i + 1 < at else None) for i, e in enumerate(t.effs[:at]) if e.kind == "call" and SORTK.search(e.name)]
            moved = [e for e in t.effs[:at] if e.kind == "call" and re.search(r"::(reverse|swap|rotate_left|rotate_right|select_nth_unstable\w*|fill|copy_within)$", e.name) and contains(e.args[0], lambda x: x is f0)]
            if not how or not so:
                small = t.E.decide(t.st, le(mk_len(f0), c(1))) is True
                inside = [e for e in flat(t.effs[:at]) if e.kind == "call" and SORTK.search(e.name)]
                if how or inside:
                    cx.ob(R, k, "sorted before numbered", small, "") if small else None
                    late = late if small else "%s: how the keys are ordered" % ty
                else:
                    cx.ob(R, k, "sorted before numbered", small, "the values are numbered in the order they were added")
                continue
            e, nx = so[-1]
            i_s = next(i for i, x in enumerate(t.effs) if x is e)
            cx.ob(R, k, "nothing moves them after", not [x for x in moved if t.effs.index(x) > i_s], "the keys are moved after they are sorted")
            cx.ob(R, k, "all the keys", e.args[0].op != "slice", "sorts only %s" % show(e.args[0])[:100])
            if state_of(e.args[0]) is not f0:
                late = "%s: sorts %s" % (ty, show(e.args[0])[:80])
                continue
            if len(how) > len(so) + len(moved):
                late = "%s: what happens to the keys: %s" % (ty, how)
            if nx is None or nx.kind != "loop":
                late = "%s: the order given to %s" % (ty, e.name)
                continue
            bykey = "by_key" in e.name or "cached_key" in e.name
            for it in nx.x["iters"]:
                cr = [x for x in it.effs if x.kind == "cret"]
                if len(cr) != 1:
                    late = "%s: the order given to %s" % (ty, e.name)
                    continue
                y = cr[0].args[-1]

                def bytes_of(x):
                    """which argument's whole value it is"""
                    x = unbox(it.st and t.E.deref_full(it.st, x) or x)
                    if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "idx" and x.a[0].a[0] is d0 and x.a[0].a[1].op == "carg":
                        return x.a[0].a[1].a[1]
                    return None
                if bykey:
                    first = y
                    if isagg(y) and y.a[0] == "()" and agg_items(y):
                        first = agg_items(y)[0][1]
                    w = bytes_of(first)
                    if w is None and not contains(y, lambda x: x.op == "carg"):
                        late = "%s: ordered by %s" % (ty, show(y)[:80])
                        continue
                    if w is None and first.op not in ("agg", "slice", "len", "lin", "idx", "fld"):
                        late = "%s: ordered by %s" % (ty, show(y)[:80])
                        continue
                    cx.ob(R, k, "by all their bytes, ascending", w == 0, "by %s" % show(y)[:120])
                    continue
                xs = {x: bytes_of(x) for src in [y] + list(it.bnd) for x in walk(src) if isinstance(x, T) and x.op == "fld" and bytes_of(x) is not None}
                judged = 0
                for a in (0, 1, 2):
                    for b in (0, 1, 2):
                        env = {x: (a, b)[w] for x, w in xs.items()}
                        if not consistent(it.bnd, it.facts, env):
                            continue
                        o = order_of(y, lambda z: evs(z, env))
                        if o is None:
                            continue
                        judged += 1
                        cx.ob(R, k, "by all their bytes, ascending", o == sgn(a - b), "by %s" % show(y)[:120])
                if not judged:
                    slic = [x for x in walk(y) if isinstance(x, T) and x.op in ("slice", "len") and contains(x, lambda z: bytes_of(z) is not None)]
                    if y.op == "cmp" and slic:
                        cx.ob(R, k, "by all their bytes, ascending", False, "by %s" % show(y)[:120])
                    else:
                        late = "%s: ordered by %s" % (ty, show(y)[:80])
        cx.ob(R, k, "paths", n >= 1, "")
    k = mth(cx, VSC + "::IndexedValueStore::add_value")
    for t in cx.traces(k, paths=True):
        if t.kind != "ret":
            continue
        d0 = F(A[0], B["data"])
        if not any(e.kind == "call" and e.name.endswith("::push") and e.args[0] is d0 for e in t.effs):
            continue
        look = [e for e in flat(t.effs) if e.kind in ("call", "loop", "cret") and not (e.kind == "call" and re.search(r"::(push|into|len|from)$", e.name))]
        cx.ob(R, k, "equal values share a place", bool(look), "a value is kept without looking for an equal one: entries with equal keys are told apart by their places before their other sort properties")
        parts = sum(e.kind == "call" and re.search(r"::(position\w*|find\w*|any|contains)$", e.name) is not None for e in t.effs)
        for e in look:
            if e.kind == "call" and re.search(r"::(position\w*|find\w*|any|contains)$", e.name):
                cx.ob(R, k, "an equal value is looked for among all", not (contains(e.args[0], lambda y: y is d0) and any(
                    y.op == "slice" and not (y.a[1] is c(0) and y.a[2] is mk_len(d0)) or isagg(y) and y.a[0] and RESTRICT.match(y.a[0]) for y in walk(e.args[0]))) or parts > 1, "looked for in %s" % show(e.args[0])[:100])
            if e.kind == "loop":
                v = visit(t, e, d0)
                cx.ob(R, k, "an equal value is looked for among all", v is None or v[0] is not False, "values are left out of the search")
    if late:
        raise Anchor(late)


# ---- values, as the reader orders them ------------------------------------------------------------------------
def r_raw_cmp(cx, R):
    cx.rule(R, "the reader compares integers as numbers, whatever width they were read with (negative ones below positive ones), and arrays by their bytes")
    k = cx.m("RawValue", "partial_cmp", "")
    RV = vnames(cx, "RawValue", LAY)
    VV = vnames(cx, "Value", "common::value")
    AC = re.compile(r"raw_value::Array::cmp$")
    W = {}
    for p in RV:
        m = re.match(r"([UI])(8|16|32|64)$", p)
        if m:
            W[p] = (m.group(1), int(m.group(2)))
    if len(W) != 8 or "Array" not in RV or not {"Unsigned", "UnsignedWord", "Signed", "SignedWord", "Array"} <= set(VV):
        raise Anchor("kinds of values: %s, %s" % (RV, VV))
    late = None
    for i, p in enumerate(RV):
        for j, q in enumerate(VV):
            if p not in W and p != "Array":
                continue
            a, b = mk("pl", A[0], p, "0"), mk("pl", A[1], q, "0")
            inst = "%s, %s" % (p, q)
            ts = cx.traces(k, stop=[AC], paths=True, assume=[(eq(mk("discr", A[0]), c(i)), True), (eq(mk("discr", A[1]), c(j)), True)])
            if p == "Array":
                if q != "Array":
                    continue
                for t in ts:
                    if t.kind != "ret":
                        continue
                    e = calls(t, AC)
                    if len(e) != 1:
                        late = inst
                        continue
                    cx.ob(R, k, "%s: operands" % inst, unbox(e[0].args[0]) is a and contains(e[0].args[1], lambda x: x is b), "compares %s with %s" % (show(e[0].args[0])[:60], show(e[0].args[1])[:60]))
                    if isagg(t.val, None, "Err"):
                        continue
                    o = fld(t.val, "0")
                    for x in (LESS, EQUAL, GREATER):
                        if not consistent(t.bnd, t.facts, {mk("discr", e[0].res): 0, mk("discr", pay(e[0].res, "Ok")): x}):
                            continue
                        got = order_of(fld(o, "0"), lambda z: x if z is mk("discr", pay(e[0].res, "Ok")) else None) if isagg(o, None, "Some") else NONE_ if isagg(o, None, "None") else None
                        if got is None:
                            late = inst
                            continue
                        cx.ob(R, k, inst, got == SIGN[x], "the arrays compare %d, the answer is %s" % (SIGN[x], got))
                continue
            if not q.startswith(("Unsigned", "Signed")):
                continue
            sg, w = W[p]
            same = (sg == "U") == q.startswith("Unsigned")
            xs = [x for x in (UNS if sg == "U" else SIG) if (x < 1 << w if sg == "U" else -(1 << w - 1) <= x < 1 << w - 1)]
            ys = UNS if q.startswith("Unsigned") else SIG
            n = 0
            for t in ts:
                if t.kind != "ret":
                    continue
                if not okval_(t.val):
                    late = inst
                    continue

                class V:
                    bnd, facts, effs, val = t.bnd, t.facts, t.effs, fld(t.val, "0")
                r = numeric(V, {a}, words(V, b) if q.endswith("Word") else {b}, xs, ys)
                if r is None:
                    late = "%s: %s" % (inst, show(t.val)[:100])
                    continue
                n += r[0]
                if r[1] == "None":
                    cx.ob(R, k, inst, not same, "they are not comparable")
                    continue
                cx.ob(R, k, inst, r[1] is None, r[1] or "")
            if same and late is None:
                cx.ob(R, k, "%s: comparable" % inst, n > 0, "")
    if late:
        raise Anchor(late)


def r_array_cmp(cx, R):
    cx.rule(R, "an array is compared byte by byte, those kept in the entry then those of the value store, up to the first difference; the shorter is Less when one is the start of the other")
    ks = [x for x in cx.keys(r"reader::directory_pack::raw_value::Array::cmp$")]
    if len(ks) != 1:
        raise Anchor("Array::cmp")
    k = ks[0]
    NX, NW, RS = re.compile(r"ArrayIter.* as .*Iterator>::next$|Iterator::next$"), re.compile(r"ArrayIter::<.*>::new$|ArrayIter::new$"), re.compile(r"::resolve_to_vec$")
    ts = cx.traces(k, stop=[re.compile(r"ArrayIter.*::(next|new)$"), RS], paths=True)
    late = None
    n = 0
    for t in ts:
        if t.kind != "ret":
            continue
        nw = [e for e in t.effs if e.kind == "call" and NW.search(e.name)]
        if len(nw) != 1:
            raise Anchor("the bytes of an array are not taken from its iterator")
        cx.ob(R, k, "its own bytes", contains(nw[0].args[0], lambda x: x is A[0]), "compares %s" % show(nw[0].args[0])[:60])
        if t.E.decide(t.st, eq(mk("discr", nw[0].res), c(1))) is True:
            cx.ob(R, k, "errors", isagg(t.val, None, "Err"), "a failed read gives %s" % show(t.val)[:80])
            continue
        ls = [l for l in t.effs if l.kind == "loop"]
        if len(ls) != 1:
            raise Anchor("Array::cmp: %d loops" % len(ls))
        l = ls[0]
        pos = [lv for lv, i0 in l.x["init"].items() if i0.op == "c" and all(sub(it.next.get(lv, lv), lv) is c(1) for it in l.x["iters"])]
        its = [lv for lv, i0 in l.x["init"].items() if i0 is pay(nw[0].res, "Ok")]
        if len(pos) != 1 or len(its) != 1 or len(l.x["init"]) != 2:
            raise Anchor("Array::cmp carries %s" % [show(x)[:60] for x in l.x["init"].values()])
        pos, itv = pos[0], its[0]
        cx.ob(R, k, "from the first byte", l.x["init"][pos] is c(0), "from the byte %s of the other" % show(l.x["init"][pos]))

        def situations(i, effs):
            """consistent (our byte: 0 none, 1 there, "e" error; bytes of the other left; their order)"""
            ne = [e for e in flat(effs) if e.kind == "call" and NX.search(e.name)]
            if len(ne) != 1 or state_of(ne[0].args[0]) is not itv:
                raise Anchor("Array::cmp: one byte at a time")
            y = ne[0].res
            our = pay(pay(y, "Some"), "Ok")
            for d in (0, 1, "e"):
                for rem in (0, 1, 2):
                    for o in (LESS, EQUAL, GREATER):
                        if (d != 1 or rem == 0) and o != LESS:
                            continue
                        env = {mk("discr", y): 0 if d == 0 else 1, mk_len(A[1]): 7 + rem, pos: 7}
                        if d != 0:
                            env[mk("discr", pay(y, "Some"))] = 1 if d == "e" else 0
                        oth = mk("idx", A[1], pos)
                        env[our] = 100 + SIGN[o]
                        env[oth] = 100
                        cm = mk("cmp", our, oth)
                        env[mk("discr", cm)] = o
                        env[mk("discr", mk("cmp", oth, our))] = {LESS: GREATER, GREATER: LESS, EQUAL: EQUAL}[o]
                        if consistent(i.bnd, i.facts, env):
                            yield d, rem, (o if d == 1 and rem else None), env
        for it in l.x["iters"]:
            for d, rem, o, env in situations(it, it.effs):
                n += 1
                cx.ob(R, k, "goes on while the bytes are equal", d == 1 and rem > 0 and o == EQUAL, "goes on with %s" % ("an error" if d == "e" else "no byte left" if d == 0 or not rem else "different bytes"))
        tail = [e for e in t.effs if e is not l and e is not nw[0]]
        for d, rem, o, env in situations(t, tail):
            n += 1
            v = t.val
            if d == "e":
                cx.ob(R, k, "errors", isagg(v, None, "Err"), "a failed read gives %s" % show(v)[:80])
                continue
            if not okval_(v):
                late = "Array::cmp answers %s" % show(v)[:80]
                continue
            got = order_of(fld(v, "0"), lambda z: evs(z, env))
            if got is None:
                late = "Array::cmp answers %s" % show(v)[:80]
                continue
            if d == 1 and rem and o == EQUAL:
                cx.ob(R, k, "first difference", False, "ends on equal bytes")
            elif d == 1 and rem:
                cx.ob(R, k, "first difference", got == SIGN[o], "the byte compares %d, the answer is %d" % (SIGN[o], got))
            elif d == 1:
                cx.ob(R, k, "longer", got == 1, "an array which continues the other compares %d" % got)
            elif rem:
                cx.ob(R, k, "shorter", got == -1, "an array which is the start of the other compares %d" % got)
            else:
                cx.ob(R, k, "same bytes", got == 0, "the same bytes compare %d" % got)
    cx.ob(R, k, "paths", n >= 5, "")
    if late:
        raise Anchor(late)


def r_array_iter(cx, R):
    cx.rule(R, "the bytes of an array are the base_len ones kept in the entry, then, when its size says there are more (or nothing is said) and it has a value, those of that value (size - base_len of them), each once")
    MV = vnames(cx, "ArrayIterMode", LAY)
    if set(MV) != {"Base", "Extend", "End"}:
        raise Anchor("ArrayIterMode: %s" % MV)
    md, ix, ar = fieldt(cx, "ArrayIter", LAY, "ArrayIterMode"), fieldt(cx, "ArrayIter", LAY, r"^usize$"), fieldt(cx, "ArrayIter", LAY, r"raw_value::Array$|& ?'?.*Array")
    ks = [x for x in cx.keys(r"raw_value::ArrayIter.* as .*Iterator>::next$")]
    kn = [x for x in cx.keys(r"raw_value::ArrayIter.*::new$")]
    kx = [x for x in cx.keys(r"raw_value::ArrayIter.*::setup_extend$")]
    if len(ks) != 1 or len(kn) != 1 or len(kx) != 1:
        raise Anchor("ArrayIter")
    SX = re.compile(r"::setup_extend$")
    late = None
    k = ks[0]
    mode, I = F(A[0], md), F(A[0], ix)
    seen = set()
    for t in cx.traces(k, stop=[SX], paths=True):
        if t.kind != "ret":
            continue
        ms = [m for m in MV if consistent(t.bnd, t.facts, {mk("discr", mode): MV.index(m)})]
        if len(ms) != 1:
            raise Anchor("ArrayIter::next: mode %s" % ms)
        m = ms[0]
        end = final(t, A[0])
        em, ei = fld(end, md), fld(end, ix)
        sx = [e for e in t.effs if e.kind == "call" and SX.search(e.name)]
        if m == "End":
            seen.add(m)
            cx.ob(R, k, "End stays", isagg(t.val, None, "None") and (em is mode or isagg(em, None, "End")), "gives %s after the end" % show(t.val)[:60])
            continue
        data, ln = mk("pl", mode, m, "data"), mk("pl", mode, m, "len")
        for i0, L0 in ((0, 1), (0, 2), (3, 4), (3, 5), (3, 6)):
            env = {I: i0, ln: L0, mk_len(data): 9, mk("discr", mode): MV.index(m)}
            if not consistent(t.bnd, t.facts, env):
                continue
            seen.add((m, i0 + 1 == L0))
            fin = i0 + 1 == L0
            if fin and m == "Base":
                if len(sx) != 1:
                    cx.ob(R, k, "Base: then the rest", False, "after the bytes of the entry the rest is looked for %d times" % len(sx))
                    continue
                cx.ob(R, k, "Base: then the rest", contains(sx[0].args[0], lambda x: x is F(A[0], ar)), "of %s" % show(sx[0].args[0])[:60])
                if t.E.decide(t.st, eq(mk("discr", sx[0].res), c(1))) is True:
                    v = t.val
                    cx.ob(R, k, "errors", isagg(v, None, "Some") and isagg(fld(v, "0"), None, "Err"), "a failed read gives %s" % show(v)[:60])
                    continue
                cx.ob(R, k, "Base: then the rest", em is pay(sx[0].res, "Ok"), "the mode becomes %s" % show(em)[:60])
                cx.ob(R, k, "Base: the rest from its first byte", evs(ei, env) == 0, "from the byte %s" % show(ei)[:60])
            elif fin:
                cx.ob(R, k, "Extend: then the end", isagg(em, None, "End") and not sx, "the mode becomes %s" % show(em)[:60])
            else:
                cx.ob(R, k, "%s: goes on" % m, em is mode and not sx, "at byte %d of %d the mode becomes %s" % (i0, L0, show(em)[:60]))
                cx.ob(R, k, "%s: next byte" % m, evs(ei, env) == i0 + 1, "after byte %d comes %s" % (i0, show(ei)[:60]))
            v = t.val
            y = fld(fld(v, "0"), "0") if isagg(v, None, "Some") and isagg(fld(v, "0"), None, "Ok") else None
            if y is None:
                cx.ob(R, k, "%s: a byte" % m, False, "gives %s" % show(v)[:60])
                continue
            if y.op != "idx":
                late = "ArrayIter::next gives %s" % show(y)[:80]
                continue
            cx.ob(R, k, "%s: that byte" % m, y.a[0] is data and evs(y.a[1], env) == i0, "gives %s" % show(y)[:80])
    cx.ob(R, k, "every mode", {"End", ("Base", True), ("Base", False), ("Extend", True), ("Extend", False)} <= seen, "modes seen: %s" % sorted(map(str, seen)))
    k = kn[0]
    bl, bs, sz, ex = "base_len", "base", "size", "extend"
    for f in (bl, bs, sz, ex):
        if f not in [x[0] for x in adt(cx, "Array", "reader::directory_pack::raw_value")["variants"][0]["fields"]]:
            raise Anchor("Array.%s" % f)
    B = F(A[0], bl)
    for t in cx.traces(k, stop=[SX], paths=True):
        if t.kind != "ret":
            continue
        sx = [e for e in t.effs if e.kind == "call" and SX.search(e.name)]
        for b0 in (0, 1, 5):
            if not consistent(t.bnd, t.facts, {B: b0}):
                continue
            if sx and t.E.decide(t.st, eq(mk("discr", sx[0].res), c(1))) is True:
                cx.ob(R, k, "errors", isagg(t.val, None, "Err"), "a failed read gives %s" % show(t.val)[:60])
                continue
            if not okval_(t.val):
                late = "ArrayIter::new gives %s" % show(t.val)[:60]
                continue
            o = fld(t.val, "0")
            m = fld(o, md)
            cx.ob(R, k, "from the first byte", fld(o, ix) is c(0), "from %s" % show(fld(o, ix)))
            cx.ob(R, k, "the array", unbox(fld(o, ar)) is A[0], "of %s" % show(fld(o, ar))[:60])
            if b0 == 0:
                cx.ob(R, k, "nothing in the entry", sx and m is pay(sx[0].res, "Ok") or isagg(m, None, "Base") is False and m is not None and bool(sx), "with no byte in the entry the mode is %s" % show(m)[:60])
            else:
                cx.ob(R, k, "bytes of the entry first", isagg(m, None, "Base"), "with bytes in the entry the mode is %s" % show(m)[:60])
                if isagg(m, None, "Base"):
                    cx.ob(R, k, "bytes of the entry", contains(fld(m, "data"), lambda x: x is F(A[0], bs)) and not (fld(m, "data").op == "slice" and fld(m, "data").a[1] is not c(0)) and
                          evs(fld(m, "len"), {B: b0}) == b0, "%s of %s" % (show(fld(m, "len"))[:60], show(fld(m, "data"))[:60]))
    k = kx[0]
    GD = re.compile(r"::get_data$")
    S, X = F(A[0], sz), F(A[0], ex)
    n = 0
    for t in cx.traces(k, stop=[GD], paths=True):
        if t.kind != "ret":
            continue
        gd = [e for e in t.effs if e.kind == "call" and GD.search(e.name)]
        for s0 in (None, 3, 4, 9):
            for x0 in (0, 1):
                for d0 in (0, 2, "e"):
                    env = {B: 3, mk("discr", S): 0 if s0 is None else 1, mk("discr", X): x0}
                    if s0 is not None:
                        env[mk("pl", S, "Some", "0")] = s0
                    if gd:
                        env[mk("discr", gd[0].res)] = 1 if d0 == "e" else 0
                        env[mk_len(pay(gd[0].res, "Ok"))] = 0 if d0 == "e" else d0
                    elif d0 != 0:
                        continue
                    if not consistent(t.bnd, t.facts, env):
                        continue
                    n += 1
                    more = (s0 is None or s0 > 3) and x0 == 1
                    if not more:
                        cx.ob(R, k, "nothing more", okval_(t.val) and isagg(fld(t.val, "0"), None, "End"), "with size %s and %s the rest is %s" % (s0, "a value" if x0 else "no value", show(t.val)[:60]))
                        continue
                    if len(gd) != 1:
                        cx.ob(R, k, "the value is read", False, "with size %s and 3 bytes in the entry the rest is %s" % (s0, show(t.val)[:60]))
                        continue
                    ext = mk("pl", X, "Some", "0")
                    cx.ob(R, k, "its value", contains(gd[0].args[0], lambda x: x is fld(ext, "store")) and gd[0].args[1] is fld(ext, "value_id"), "reads %s of %s" % (show(gd[0].args[1])[:60], show(gd[0].args[0])[:60]))
                    a2 = gd[0].args[2]
                    if a2 is S or isagg(a2, None, "Some") or isagg(a2, None, "None"):
                        y = s0 if a2 is S else evs(fld(a2, "0"), env) if isagg(a2, None, "Some") else None
                        cx.ob(R, k, "what is left of it", y == (None if s0 is None else s0 - 3), "with size %s and 3 bytes in the entry %s are read" % (s0, y))
                    else:
                        late = "setup_extend reads %s" % show(a2)[:80]
                    if d0 == "e":
                        cx.ob(R, k, "errors", isagg(t.val, None, "Err"), "a failed read gives %s" % show(t.val)[:60])
                        continue
                    if not okval_(t.val):
                        late = "setup_extend gives %s" % show(t.val)[:60]
                        continue
                    m = fld(t.val, "0")
                    if d0 == 0:
                        cx.ob(R, k, "empty value", isagg(m, None, "End"), "an empty value gives %s" % show(m)[:60])
                    else:
                        D = pay(gd[0].res, "Ok")
                        cx.ob(R, k, "bytes of the value", isagg(m, None, "Extend") and fld(m, "data") is D and evs(fld(m, "len"), env) == d0, "a value gives %s" % show(m)[:100])
    cx.ob(R, k, "paths", n >= 5, "")
    if late:
        raise Anchor(late)
