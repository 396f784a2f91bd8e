"""Exploration: print the abstract traces of functions, tersely."""
import sys, os, pickle, re
from . import facts, engine
from .term import show


def crate():
    p = os.environ.get("JBKC", "/tmp/jbkc.pkl")
    if os.path.exists(p) and not os.environ.get("FRESH"):
        return pickle.load(open(p, "rb"))
    c = facts.load()
    pickle.dump(c, open(p, "wb"))
    return c


def keys(c, pat):
    return [k for k, f in c.fns.items() if f["local"] and re.search(pat, k)]


W = int(os.environ.get("W", "400"))


def cut(s):
    return s if len(s) <= W else s[:W] + "…"


def peff(e, ind):
    p = "  " * ind
    if e.kind == "loop":
        print(p + "LOOP", e.name, "init", cut(str({k: show(v) for k, v in (e.x.get("init") or {}).items()}) if isinstance(e.x.get("init"), dict) else ""))
        for it in e.x["iters"]:
            print(p + " iter when", cut(" & ".join("%s=%s" % (show(k), v) for k, v in it.facts.items())),
                  cut(" ".join("%s<=%s<=%s" % (b[0], show(k), b[1]) for k, b in it.bnd.items())))
            for x in it.effs:
                peff(x, ind + 2)
            nx = getattr(it, "next", None)
            if nx:
                print(p + "   next", cut(str({k: show(v) for k, v in nx.items()})))
        return
    from .term import T
    res = ""
    if e.kind == "call" and isinstance(e.res, T) and not (e.res.op == "call"):
        res = " -> " + show(e.res)
    print(p + cut("%s %s(%s)%s" % (e.kind, engine.short(e.name), ", ".join(show(a) for a in e.args), res)))


if __name__ == "__main__":
    c = crate()
    ks = keys(c, sys.argv[1])
    stop = [a for a in sys.argv[2:]]
    for k in ks[:int(os.environ.get("N", "4"))]:
        print("=====", k, c.fns[k]["span"])
        E = engine.Engine(c, stop=stop, asserts=bool(os.environ.get("A")), keep_drops=bool(os.environ.get("D")))
        try:
            ts = E.analyse(k)
        except engine.Limit as ex:
            print("LIMIT", ex)
            continue
        ne = 0
        for t in ts:
            if t.val is not None and t.val.op == "agg" and t.val.a[1] == "Err" and not os.environ.get("ERR"):
                ne += 1
                continue
            f = ["%s=%s" % (show(k), v) for k, v in t.facts.items()]
            for k2, (lo, hi, ex) in t.bnd.items():
                f.append("%s<=%s<=%s%s" % (lo, show(k2), hi, " !%s" % sorted(ex) if ex else ""))
            print("TRACE", t.kind, t.why or "", "\n  when", cut(" & ".join(f)))
            for e in t.effs:
                if e.kind == "drop" and not os.environ.get("D"):
                    continue
                peff(e, 1)
            print("  =>", cut(show(t.val)) if t.val is not None else None)
            if os.environ.get("M"):
                for l, v in t.mem.items():
                    print("   mem", l, cut(show(v)))
        if ne:
            print("(+%d Err traces)" % ne)
