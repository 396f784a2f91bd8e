"""What the manifest's creator records about each pack (shared by C10, C12, C14)."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *


def pay(r, *vs):
    for x in vs:
        r = mk("pl", r, x, "0")
    return r


def same_val(v, x, n=0):
    """v is x, or rebuilt field by field from it"""
    if v is x:
        return True
    if v is None or n > 4:
        return False
    if v.op == "agg":
        it = list(agg_items(v))
        return bool(it) and all(same_val(y, fld(x, f), n + 1) for f, y in it)
    if v.op in ("call", "pure") and re.search(r"::(clone|to_owned|into|from)$", str(v.a[0])):
        return any(same_val(y, x, n + 1) for y in v.a[1] if isinstance(y, T)) if isinstance(v.a[1], tuple) else False
    return False


def r_packdata(cx):
    R = "pack-data"
    cx.rule(R, "the description a creator returns for its pack has the uuid, size and kind of the header it wrote and the id it was given; the manifest records it unchanged with its location")
    for kind in ("Content", "Directory"):
        ps = PackStream(cx, kind)
        for s in ps.ss:
            _, h = hdr(s, "PackHeader", kind)
            v = s.res(okval(s.t))
            pd = aggs(v, "PackData")
            if len(pd) != 1:
                raise Anchor("%s creator returns %s" % (kind, show(v)[:100]))
            pd = pd[0]
            cx.ob(R, ps.key, "%s: uuid" % kind, fld(pd, "uuid") is fld(h, "uuid"), "%s, the header has %s" % (show(fld(pd, "uuid"))[:80], show(fld(h, "uuid"))[:80]))
            cx.ob(R, ps.key, "%s: size" % kind, fld(pd, "pack_size") is fld(h, "file_size"), "%s, the header has %s" % (show(fld(pd, "pack_size"))[:100], show(fld(h, "file_size"))[:100]))
            cx.ob(R, ps.key, "%s: kind" % kind, isagg(fld(pd, "pack_kind"), None, kind), show(fld(pd, "pack_kind")))
            i = fld(pd, "pack_id")
            cx.ob(R, ps.key, "%s: id" % kind, i.op == "fld" and base_obj(i.a[0]) is A[0] or contains(i, lambda x: x is A[0]), "id %s" % show(i)[:100])
            cis = objs(s, lambda x: is_check(x) is not None)
            cv = cis[-1][2].args[1] if cis else None
            cx.ob(R, ps.key, "%s: check info" % kind, cv is not None and (s.res(cv) is fld(pd, "check_info") or is_check(fld(pd, "check_info")) is not None and is_check(s.res(cv)) is is_check(fld(pd, "check_info"))),
                  "%s" % show(fld(pd, "check_info"))[:100])
    k = cx.m("ManifestPackCreator", "add_pack")
    pf = cx.field("ManifestPackCreator", r"Vec<.*PackData")
    for t in [t for t in cx.traces(k) if t.kind == "ret"]:
        f = fld(final(t, A[0]), pf)
        ok_ = f.op == "push" and f.a[0] is F(A[0], pf)
        cx.ob(R, k, "kept", ok_ and same_val(fld(f.a[1], "0"), A[1]) and contains(fld(f.a[1], "1"), lambda x: x is A[2]), show(f)[:150])
    ps = PackStream(cx, "Manifest")
    k = ps.key
    packs = F(A[0], pf)
    for s in ps.ss:
        t = s.t
        n = 0
        last = [l for l in s.log if l[0] == "loop"][-1][2]
        vec = None
        for it in last.x["iters"]:
            ws = [e for e in flat(it.effs) if e.kind == "call" and re.search(r"OutStream::ser_write$", e.name)]
            lv = seq_loop(last, it)
            if ws and lv is not None:
                vec = elem_of(ws[0].args[1], lv)
        if vec is None:
            raise Anchor("what the manifest writes")
        for l in t.effs:
            if l.kind != "loop" or vec not in l.x["init"]:
                continue
            cx.ob(R, k, "manifest: infos start empty", l.x["init"][vec].op == "vec", "")
            for it in l.x["iters"]:
                nx = it.next.get(vec, vec)
                if nx is vec:
                    cx.ob(R, k, "manifest: every pack is recorded", False, "a pack is passed over")
                    continue
                pi = nx.a[1] if nx.op == "push" else None
                if pi is None or not isagg(pi, "PackInfo"):
                    raise Anchor("pack infos")
                n += 1
                u = fld(pi, "uuid")
                el = u.a[0] if u.op == "fld" else None
                if el is None or not contains(el, lambda x: x.op == "idx" and x.a[0] is packs):
                    cx.ob(R, k, "manifest: uuid of the pack", False, "records %s" % show(u)[:100])
                    continue
                cx.ob(R, k, "manifest: uuid of the pack", u.a[1] == "uuid", show(u)[:100])
                for f in ("pack_size", "pack_id", "pack_kind"):
                    cx.ob(R, k, "manifest: %s of the pack" % f, fld(pi, f) is fld(el, f), "records %s" % show(fld(pi, f))[:100])
                where_check(cx, R, k, t, it, fld(pi, "check_info_pos"), el)
                row = el.a[0]
                cx.ob(R, k, "manifest: location of the pack", contains(fld(pi, "pack_location"), lambda x: x is fld(row, "1")) and not altered(fld(pi, "pack_location"), fld(row, "1")), "records %s" % show(fld(pi, "pack_location"))[:150])
                ix = row.a[1] if row.op == "idx" else None
                if ix is not None:
                    cx.ob(R, k, "manifest: every pack in order", l.x["init"].get(ix) is c(0) and it.next.get(ix) is add(ix, c(1)), "")
        cx.ob(R, k, "manifest: infos are made", n >= 1, "")


def where_check(cx, R, k, t, it, so, el):
    """the manifest records where, from its own start, it stored the pack's check info, and its size"""
    tell = re.compile(r"Seek::stream_position$|OutStream::tell$")
    seen = lambda e: pay(e.res, "Ok") if e.name.endswith("stream_position") else e.res
    cs = [e for e in flat(it.effs) if e.kind == "call"]
    ws = [i for i, e in enumerate(cs) if re.search(r"OutStream::(ser_write|ser_callable|write_serializer)$", e.name)]
    first = [e for e in t.effs if e.kind == "call" and tell.search(e.name)]
    if not ws and not any(contains(a, lambda x: x.op == "fld" and x.a[1] == "check_info") for e in flat(t.effs) if e.kind == "call" for a in e.args):
        cx.ob(R, k, "manifest: check info of the pack", False, "the check infos of the packs are not stored")
        return
    if len(ws) != 1 or not first or not isagg(so, "SizedOffset"):
        raise Anchor("where the check infos are stored")
    w = cs[ws[0]]
    cx.ob(R, k, "manifest: check info of the pack", w.args[1] is fld(el, "check_info"), "stores %s" % show(w.args[1])[:100])
    before = [seen(e) for e in cs[: ws[0]] if tell.search(e.name)]
    after = [seen(e) for e in cs[ws[0] + 1:] if tell.search(e.name)]
    if not before or not after:
        raise Anchor("where the check infos are stored")
    o, z = unconv(fld(so, "offset"), 48), unconv(fld(so, "size"), 16)
    cx.ob(R, k, "manifest: place of the check info", any(o is sub(b, seen(first[0])) for b in before), "recorded at %s" % show(o)[-150:])
    cx.ob(R, k, "manifest: size of the check info", any(z is sub(a, b) for b in before for a in after), "recorded as %s" % show(z)[-150:])
