"""Results are looked at: on a path that returns a value, a call that reports errors is known to have succeeded."""
from .core import *

RESULT = "core::result::Result"
# error types whose values carry a failure of the work itself (not: the end of a channel, a conversion, a formatter)
ERRTY = re.compile(r"io::error::Error|errors::Error|types::error::|dyn core::any::Any|IntoInnerError|PersistError|SendError")


def tyof(E, i):
    return E.ty(i)


def is_result(ty):
    return ty["k"] == "adt" and ty["d"] == RESULT


def has_result(E, ty, depth=3):
    """the value may carry an error that matters"""
    if depth == 0:
        return False
    if is_result(ty):
        return bool(ERRTY.search(E.ty(ty["a"][1])["s"])) or has_result(E, E.ty(ty["a"][0]), depth - 1)
    if ty["k"] == "tuple":
        return any(has_result(E, E.ty(x), depth - 1) for x in ty.get("a", []))
    return False


def carries(x, v, memo=None):
    """v itself, and not only a part taken out of it, occurs in x"""
    memo = {} if memo is None else memo
    if x is v:
        return True
    if x in memo:
        return memo[x]
    memo[x] = False
    if x.op in ("fld", "pl", "discr") and x.a[0] is v:
        return x.op == "pl" and x.a[1] == "Err"     # the error itself is told
    memo[x] = any(carries(k, v, memo) for k in kids(x))
    return memo[x]


def settled(E, st, v, ty, used, depth=3):
    """every result inside v is Ok in state st, or handed on (used(v))"""
    if depth == 0 or used(v):
        return True
    if is_result(ty):
        if ERRTY.search(E.ty(ty["a"][1])["s"]) and E.decide(st, eq(mk("discr", v), c(0))) is not True:
            return False
        return settled(E, st, E.payload(v, "Ok", "0"), E.ty(ty["a"][0]), used, depth - 1)
    if ty["k"] == "tuple":
        return all(settled(E, st, fld(v, str(i)), E.ty(x), used, depth - 1) for i, x in enumerate(ty.get("a", [])) if has_result(E, E.ty(x)))
    return True


def paths_rx(cx, keys):
    """a stop expression matching calls to exactly these functions"""
    ps = set()
    for k in keys:
        f = cx.lib.fns[k]
        ps.add(re.escape(f["path"]))
        if f.get("trait") and f["trait"].startswith(J):
            ps.add(re.escape(f["trait"] + "::" + f["name"]))
    return re.compile("^(" + "|".join(sorted(ps)) + ")$") if ps else re.compile("$^")


def returns_result(cx, f):
    E = Engine(cx.lib)
    return has_result(E, E.ty(f["locals"][0]))


def errflow(cx, R, keys, skip=None, floor=0, no=()):
    """rule body: see module doc; `skip(e)`: calls whose error may be dropped; `no`: functions judged elsewhere"""
    E0 = Engine(cx.lib)
    res = [k for k in keys if has_result(E0, E0.ty(cx.lib.fns[k]["locals"][0])) and not cx.lib.fns[k].get("closure")]
    stop = [paths_rx(cx, res)]
    n = 0
    for k in sorted(keys):
        f = cx.lib.fns[k]
        if not f["local"] or k in no:
            continue
        if not any(b["t"]["k"] == "call" and has_result(E0, E0.ty(b["t"]["dty"])) for b in f["blocks"]):
            continue
        try:
            ts = cx.traces(k, stop=stop)
        except Limit as e:
            cx.ob("limit", R, f["path"], False, "analysis limit in %s: %s" % (f["path"], e))
            continue
        cnt = [0]

        def rel(t, e):
            return (e.kind == "call" and e.res is not None and e.x and e.x.get("dty") is not None and has_result(t.E, e.x["dty"]) and not (skip and skip(e)))

        def down(t, it):
            for e in it.effs:
                if e.kind == "loop":
                    for i2 in e.x["iters"]:
                        down(t, i2)
                elif rel(t, e):
                    cnt[0] += 1

                    def used(v):
                        if any(carries(x, v) for x in it.next.values()):
                            return True
                        return any(x.kind in ("cret", "yield") and x.args and carries(x.args[0], v) for x in it.effs)
                    err = any(x.kind == "cret" and x.args and isagg(x.args[0], None, "Err") for x in it.effs)
                    cx.ob(R, k, "%s, repeated" % short(e.name), err or settled(t.E, it.st, e.res, e.x["dty"], used),
                          "an iteration goes on although %s may have failed" % e.name)
        for t in oks(ts):
            for e in t.effs:
                if e.kind == "loop":
                    for it in e.x["iters"]:
                        down(t, it)
                elif rel(t, e):
                    cnt[0] += 1
                    cx.ob(R, k, short(e.name), settled(t.E, t.st, e.res, e.x["dty"], lambda v: t.val is not None and carries(t.val, v)),
                          "a failure of %s is not reported: the path returns %s" % (e.name, show(t.val)[:150]))
        n += cnt[0]
    cx.ob(R, "crate", "calls that may fail", n >= floor, "only %d" % n)
    return n
