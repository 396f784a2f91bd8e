"""What a serialiser writes and what a parser reads, as byte tables.

written(t, root): the bytes appended, in order, to the sink `root` on one abstract trace, as
[(offset term, width term, value term)]; loops appear as ("loop", effect, [per-iteration lists]).
"""
from .core import *

WR = re.compile(r"(Write::write_all|::extend_from_slice|Extend::extend|Vec::<T, A>::push)$")


def rooted(v, root, env=()):
    n = 0
    while v is not None and v is not root and n < 200:
        n += 1
        if v.op in ("hv", "upd", "push", "fld"):
            v = v.a[0]
        elif v.op == "lv":
            for m in env:
                if v in m and m[v] is not v:
                    v = m[v]
                    break
            else:
                return False
        else:
            return False
    return v is root


def items(effs, root, env=()):
    r = []
    env = list(env)
    for e in effs:
        if e.kind == "loop":
            env = env + [e.x["init"]]
            sub = [items(it.effs, root, env) for it in e.x["iters"]]
            un = unrolled(e, [x for x in sub if x])
            if un is not None:
                r += un
            elif any(sub):
                r.append(("loop", e, list(zip(e.x["iters"], sub))))
        elif e.args and match(e, WR) and rooted(e.args[0], root, env):
            v = e.args[1]
            if v.op == "agg" and v.a[0] == "[]":
                for _, x in agg_items(v):
                    r.append((c(1), x if x.op in ("c", "enc", "bytes") else mk("enc", c(1), "le", x)))
            elif v.op == "bytes":
                r.append((c(len(v.a[0])), v))
            elif e.name.endswith("::push"):
                r.append((c(1), v))
            else:
                r.append((mk_len(v), v))
        elif e.args and re.search(r"::Write::write(_vectored)?$", e.name) and rooted(e.args[0], root, env):
            r.append(("partial", e))
    return r


def unrolled(e, subs):
    """what a loop over the elements of an array literal writes, element after element; None when it is another loop"""
    if len(subs) != 1 or any(x[0] in ("loop", "partial") for x in subs[0]):
        return None
    sub = subs[0]
    seqs = {(y.a[0], y.a[1]) for _, v in sub for y in walk(v) if y.op == "idx" and y.a[0].op == "agg" and y.a[0].a[0] == "[]"}
    if len(seqs) != 1:
        return None
    arr, i = seqs.pop()
    if e.x["init"].get(i) is not c(0) or not all(it.next.get(i) is add(i, c(1)) for it in e.x["iters"] if it.next):
        return None
    r = []
    for n, (_, x) in enumerate(agg_items(arr)):
        for w, v in sub:
            r.append(tuple(rebuild(z, lambda y: x if y.op == "idx" and y.a[0] is arr and y.a[1] in (i, c(n)) else c(n) if y is i else y) for z in (w, v)))
    return r


def plain(v):
    """(endianness, value) of an encoded value"""
    if v.op == "enc":
        return v.a[1], v.a[2]
    if v.op == "repeat" and v.a[0].op == "c":
        return "pad", v.a[0]
    if v.op == "bytes":
        return "raw", v
    return "raw", v


def table(its, off=None):
    """[(offset, width, endianness, value)] with running offsets"""
    off = off or c(0)
    r = []
    for it in its:
        if it[0] in ("loop", "partial"):
            r.append((off, it[0], it[1], it[2] if len(it) > 2 else None))
            off = None
            continue
        w, v = it
        e, x = plain(v)
        r.append((off, w, e, x))
        off = add(off, w) if off is not None else None
    return r


def written(t, root):
    return table(items(t.effs, root))


def show_table(tb):
    return " ".join("@%s+%s:%s=%s" % (show(o) if o is not None else "?", show(w) if isinstance(w, T) else w, e if isinstance(e, str) else "", show(x) if isinstance(x, T) else "..") for o, w, e, x in tb)
