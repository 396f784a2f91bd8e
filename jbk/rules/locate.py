"""How packs are found, opened and reported (shared by C10, C11)."""
from .core import *
from .wire import *
from .layout import *
from . import c12
from .entries import consistent, evs

OPEN = re.compile(r"open_as_container_pack$")


def pay(r, *vs):
    """payload of a result term through the given variants"""
    v = r
    for x in vs:
        v = mk("pl", v, x, "0")
    return v


def is_rd(v, x):
    """v is (a copy of) the reader x"""
    if v is x:
        return True
    if not isagg(v, "Reader"):
        return False
    r = fld(v, "region")
    return (fld(v, "source") is fld(x, "source") and (r is fld(x, "region") or
            fld(r, "begin") is F(x, "region", "begin") and fld(r, "end") is F(x, "region", "end")))


def same_val(v, x, n=0):
    """v is x, or rebuilt field by field from it"""
    if v is x:
        return True
    if v is None or n > 4:
        return False
    if v.op == "agg":
        it = list(agg_items(v))
        return bool(it) and all(same_val(y, fld(x, f), n + 1) for f, y in it)
    if v.op in ("call", "pure") and re.search(r"::(clone|to_owned|into|from)$", str(v.a[0])):
        return any(same_val(y, x, n + 1) for y in v.a[1] if isinstance(y, T)) if isinstance(v.a[1], tuple) else False
    return False


def got(v):
    """(map, key) of each HashMap::get a term comes from"""
    return [x for x in walk(v) if x.op == "call" and re.search(r"HashMap::<.*>::get$|map::HashMap.*::get$", str(x.a[0]))]


def variant(t, r):
    """what the trace knows of an Option / Result / enum value: discriminant or None"""
    d = mk("discr", r)
    for n in (0, 1):
        if t.E.decide(t.st, eq(d, c(n))) is True:
            return n
    return None


def is_none(t, v):
    if isagg(v):
        return v.a[1] == "None"
    n = variant(t, v)
    return None if n is None else n == 0


def at_start(l, v):
    """value of v when the loop starts"""
    return rebuild(v, lambda x: l.x["init"].get(x, x))


class At:
    """an iteration seen as a trace"""
    def __init__(self, t, it):
        self.E, self.st = t.E, it.st


def r_chain(cx):
    R = "chain"
    cx.rule(R, "ChainedLocator::locate asks its locators in their order, with the same uuid and location, answers with the first pack found, and with `not found` only when "
               "each of them answered so; an error is one of theirs")
    k = cx.m("ChainedLocator", "locate", "PackLocatorTrait")
    n = {"some": 0, "none": 0}
    ts = cx.traces(k, stop=["PackLocatorTrait.*::locate$"])
    loc = lambda effs: [e for e in effs if e.kind == "call" and match(e, "PackLocatorTrait::locate")]
    for t in oks(ts):
        cs = loc(flat(t.effs))
        for e in cs:
            cx.ob(R, k, "same uuid", e.args[1] is A[1], "asks for %s" % show(e.args[1])[:200])
            cx.ob(R, k, "same location", e.args[2] is A[2], "asks at %s" % show(e.args[2])[:200])
            cx.ob(R, k, "asks its locators", contains(e.args[0], lambda x: x is A[0]), "asks %s" % show(e.args[0])[:200])
        lps = [l for l in t.effs if l.kind == "loop" and any(loc(flat(it.effs)) for it in l.x["iters"])]
        if len(lps) != 1:
            raise Anchor("the locators are not asked by one loop")
        l = lps[0]
        seqs = {x.a[0] for it in l.x["iters"] for e in loc(flat(it.effs)) for x in walk(e.args[0]) if x.op == "idx"}
        el = {x for it in l.x["iters"] for e in loc(flat(it.effs)) for x in walk(e.args[0]) if x.op == "elem"}
        seq = seqs.pop() if len(seqs) == 1 else None
        if seq is None:
            if el and any(isagg(x, "it:rev") for i0 in l.x["init"].values() for x in walk(i0)):
                cx.ob(R, k, "order", False, "the locators are asked in reverse order")
                continue
            raise Anchor("the locators are not elements of a list")
        for it in l.x["iters"]:
            ic = loc(flat(it.effs))
            if not ic:
                cx.ob(R, k, "every locator is asked", False, "a locator is passed over")
                continue
            d = is_none(At(t, it), pay(ic[-1].res, "Ok"))
            cx.ob(R, k, "goes on only when not found", d is True, "the next locator is asked although this one may have found the pack")
        at = {x.a[1] for e in [e for it in l.x["iters"] for e in loc(flat(it.effs))] for x in walk(e.args[0]) if x.op == "idx" and x.a[0] is seq}
        if len(at) != 1:
            raise Anchor("which locator is asked")
        at = at.pop()
        first = at_start(l, at)
        st = {sub(rebuild(at, lambda x: it.next.get(x, x)), at) for it in l.x["iters"]}
        cx.ob(R, k, "order", first is c(0) and st == {c(1)}, "starts at %s, steps %s" % (show(first), [show(s) for s in st]))
        v = t.val
        ok_ = fld(v, "0") if isagg(v, None, "Ok") else None
        last = loc(t.effs)
        if ok_ is None:
            own = [e for e in last if v is e.res]
            if own and is_none(t, pay(v, "Ok")) is not True:
                ok_ = pay(v, "Ok")
            else:
                raise Anchor("returns %s" % show(v)[:200])
        some = None
        if isagg(ok_, None, "Some"):
            some = fld(ok_, "0")
        elif not isagg(ok_, None, "None") and is_none(t, ok_) is False:
            some = pay(ok_, "Some")
        if some is not None:
            n["some"] += 1
            mine = [e for e in last if is_rd(some, pay(e.res, "Ok", "Some"))]
            cx.ob(R, k, "answers with what was found", len(mine) == 1, "answers %s" % show(some)[:200])
        elif is_none(t, ok_) is True:
            n["none"] += 1
            vi = visit(t, l, seq)
            if vi is None:
                raise Anchor("cannot tell which locators are asked")
            cx.ob(R, k, "not found only after all", vi[0] is True, "some locators are not asked")
            for e in last:
                cx.ob(R, k, "not found only after all", is_none(t, pay(e.res, "Ok")) is True, "`not found` is answered although a locator found the pack")
        else:
            raise Anchor("answers %s" % show(ok_)[:200])
    cx.ob(R, k, "both answers", all(n.values()), str(n))
    for t in errs(ts):
        src = [e for e in flat(t.effs) if e.kind == "call" and match(e, "PackLocatorTrait::locate") and contains(t.val, lambda x: x is e.res)]
        cx.ob(R, k, "errors are the locators'", bool(src), "returns %s" % show(t.val)[:200])


def file_at(t, v):
    """path of the File::open a term comes from"""
    os_ = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"fs::File::open$", e.name) and contains(v, lambda x: x is e.res)]
    return os_[0].args[1 if len(os_[0].args) > 1 else 0] if len(os_) == 1 else None


def r_fs(cx):
    R = "file-locator"
    cx.rule(R, "FsLocator::locate: `not found` when there is no regular file at the location joined to its directory; otherwise the pack of that uuid in that file, "
               "opened as a container or as a lone pack, and `not found` when the file holds another pack")
    k = cx.m("FsLocator", "locate", "PackLocatorTrait")
    ts = cx.traces(k, stop=[OPEN], paths=True)
    n = {"absent": 0, "found": 0, "other": 0}

    def isfile(t):
        return [(x, bool(v)) for x, v in t.facts.items() if x.op in ("call", "pure") and re.search(r"is_file$", str(x.a[0]))]

    def plain_path(v):
        while v is not A[2] and v.op in ("call", "pure") and re.search(r"(Path::new|as_ref|deref|borrow|into|from|as_str|to_owned|to_path_buf|clone|as_path|as_std_path|as_os_str)$", str(v.a[0])):
            xs = [y for y in (v.a[1] if isinstance(v.a[1], tuple) else v.a[1:]) if isinstance(y, T)]
            if len(xs) != 1:
                return False
            v = xs[0]
        return v is A[2]

    def is_join(p):
        return p.op in ("call", "pure") and re.search(r"Path(Buf)?::join$", str(p.a[0])) and contains(p, lambda x: x is A[0]) and contains(p, lambda x: x is A[2])
    late = []

    def about(p, path):
        return contains(p, lambda x: x is path) or (is_join(path) and contains(p, is_join))
    for t in oks(ts):
        op = calls(t, OPEN)
        v = okval(t)
        fi = isfile(t)
        if not op:
            if is_none(t, v) is not True:
                cx.ob(R, k, "opened", False, "answers %s without opening a file" % show(v)[:100])
                continue
            n["absent"] += 1
            bad = [x for x, d in fi if d]
            if not fi:
                if t.facts or t.bnd:
                    late.append("`not found` is decided by %s" % [show(x)[:80] for x in list(t.facts)[:2]])
                    continue
            cx.ob(R, k, "absent: no regular file there", bool(fi) and not bad and all(contains(x, lambda y: is_join(y)) for x, _ in fi), "`not found` is decided by %s" % [show(x)[:120] for x, _ in fi])
            continue
        p = file_at(t, op[0].args[0])
        if p is None:
            raise Anchor("what is opened: %s" % show(op[0].args[0])[:150])
        good = contains(p, is_join)
        cx.ob(R, k, "opens the location in its directory", good, "opens %s" % show(p)[:150])
        for j in [x for x in walk(p) if is_join(x)]:
            tail = [y for y in (j.a[1] if isinstance(j.a[1], tuple) else j.a[1:]) if isinstance(y, T)][-1]
            if not plain_path(tail):
                if re.search(r"file_name|file_stem|with_extension|strip_prefix|parent|components|nth|split|trim|replace|to_lowercase", show(tail)):
                    cx.ob(R, k, "the whole location", False, "looks at %s" % show(tail)[:150])
                else:
                    late.append("the location looked at is %s" % show(tail)[:150])
            else:
                cx.ob(R, k, "the whole location", True)
        ex = [x for x in list(t.facts) if re.search(r"(Path::exists|try_exists)$", str(x.a[0]) if x.op in ("call", "pure") else "")]
        if not fi and not ex:
            raise Anchor("the file is opened without asking whether it is one")
        cx.ob(R, k, "a directory or a missing file is not opened", any(d for _, d in fi), "only %s is asked" % [show(x)[:100] for x in ex])
        res = pay(op[0].res, "Ok")
        g = [x for x in got_facts(t, v) if contains(x, lambda y: y is res)]
        if not g:
            raise Anchor("the pack is not looked up in the opened file: %s" % show(v)[:150])
        g = g[0]
        cx.ob(R, k, "looked up by uuid", g.a[1][1] is A[1] and fld(g.a[1][0], "packs") is not None and g.a[1][0] is F(res, "packs"), "looked up with %s" % [show(x)[:80] for x in g.a[1]])
        if is_none(t, v) is True:
            n["other"] += 1
            cx.ob(R, k, "other pack: not found", is_none(t, g) is True, "`not found` is answered although the file holds the pack")
        else:
            n["found"] += 1
            x = fld(v, "0") if isagg(v, None, "Some") else okval(t) if not isagg(v) else None
            if x is not None and x is g:
                continue
            cx.ob(R, k, "found: that pack", x is not None and (is_rd(x, pay(g, "Some")) or x is pay(g, "Some")), "answers %s" % show(v)[:200])
    if late:
        raise Anchor(late[0])
    cx.ob(R, k, "all outcomes", all(n.values()), str(n))


def got_facts(t, v):
    return got(v) or [y for x in list(t.bnd) + list(t.facts) for y in got(x)]


def r_container_pack(cx):
    R = "container-pack"
    cx.rule(R, "ContainerPack: each locator of the table, at pack_locators_pos + 36*i for pack_count of them, maps its uuid to the bytes [pack_pos, pack_pos + pack_size) of the "
               "container; a lone pack maps its own uuid to itself; lookups are by uuid; the manifest is a contained pack whose header says so")
    for name, tr in (("get_pack_reader", ""), ("locate", "PackLocatorTrait")):
        k = cx.m("ContainerPack", name, tr)
        seen = set()
        for t in oks(cx.traces(k)):
            v = okval(t)
            g = got_facts(t, t.val)
            if not g:
                raise Anchor("%s does not look in the packs" % name)
            g = g[0]
            cx.ob(R, k, "looked up by uuid", g.a[1][0] is F(A[0], "packs") and g.a[1][1] is A[1], show(g))
            if isagg(v, None, "Some"):
                v = fld(v, "0")
            elif not isagg(v) and v is g:
                continue
            d = is_none(t, v) if isagg(v) and v.a[1] == "None" else False
            if d:
                seen.add("none")
                cx.ob(R, k, "not found", is_none(t, g) is True, "the pack is there")
            else:
                seen.add("some")
                cx.ob(R, k, "found", is_rd(v, pay(g, "Some")), "answers %s" % show(v)[:200])
        cx.ob(R, k, "both answers", len(seen) != 1, str(seen))
    ins = re.compile(r"HashMap.*::insert$|map::HashMap.*::insert$")
    k = cx.m("ContainerPack", "new_fake")
    for t in oks(cx.traces(k)):
        i = calls(t, ins)
        if not i:
            # made at once of its pairs
            ps = [x for x in walk(fld(okval(t), "packs")) if isagg(x, "[]")]
            if len(ps) != 1 or len(agg_items(ps[0])) != 1 or not isagg(agg_items(ps[0])[0][1]):
                raise Anchor("a lone pack is kept in %s" % show(fld(okval(t), "packs"))[:200])
            pr = [x for _, x in agg_items(agg_items(ps[0])[0][1])]
            cx.ob(R, k, "lone pack", len(pr) == 2 and pr[0] is A[1] and is_rd(pr[1], A[0]), "%s" % [show(x)[:100] for x in pr])
            continue
        cx.ob(R, k, "lone pack", len(i) == 1 and i[0].args[1] is A[1] and is_rd(i[0].args[2], A[0]), "%s" % [show(x)[:100] for e in i for x in e.args])
    k = cx.m("ContainerPack", "new")
    size = 36
    m = 0
    for t in oks(cx.traces(k, stop=["parse_block", "Reader::cut$"])):
        ps = [e for e in t.effs if e.kind == "call" and e.name.endswith("parse_block_at")]
        h = [e for e in ps if e.args[1] is c(0)]
        ch = [e for e in ps if e.args[1] is c(64)]
        if not h or not ch:
            raise Anchor("container headers are read at %s" % [show(e.args[1]) for e in ps])
        cx.ob(R, k, "kind", implied(t, eq(mk("discr", fld(pay(h[0].res, "Ok"), "magic")), c(ord("C")))) is True, "a pack of another kind is opened as a container")
        hd = pay(ch[0].res, "Ok")
        lps = [l for l in t.effs if l.kind == "loop" and any(e.kind == "call" and ins.search(e.name) or e.kind == "call" and e.name.endswith("parse_block_at") for it in l.x["iters"] for e in flat(it.effs))]
        if len(lps) != 1:
            raise Anchor("the locators are not read by one loop")
        l = lps[0]
        full = c12.visits_all(t, l, fld(hd, "pack_count"))
        if full is None:
            lv = [x for x in l.x["init"] if "current" in show(x) or "pos" in show(x)]
            raise Anchor("cannot tell how many locators are read")
        cx.ob(R, k, "every locator is read", full, "")
        for it in l.x["iters"]:
            pb = [e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("parse_block_at")]
            ii = [e for e in flat(it.effs) if e.kind == "call" and ins.search(e.name)]
            cu = [e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("Reader::cut")]
            if len(pb) != 1:
                raise Anchor("a locator is not read once")
            m += 1
            a, b = c12.affine(l, it, pb[0].args[1])
            cx.ob(R, k, "locator positions", a is fld(hd, "pack_locators_pos") and b is c(size), "read at %s then every %s" % (show(a)[:100], show(b)))
            loc = pay(pb[0].res, "Ok")
            if not ii:
                cx.ob(R, k, "every locator is kept", False, "a locator is read and forgotten")
                continue
            cx.ob(R, k, "under its uuid", ii[-1].args[1] is fld(loc, "uuid"), "kept under %s" % show(ii[-1].args[1])[:100])
            good = [e for e in cu if is_rd(ii[-1].args[2], pay(e.res, "Ok"))]
            if not good:
                raise Anchor("the pack is not a cut of the container")
            e = good[0]
            cx.ob(R, k, "its bytes", e.args[0] is A[0] and e.args[1] is fld(loc, "pack_pos") and e.args[2] is fld(loc, "pack_size"), "the pack is [%s, +%s)" % (show(e.args[1])[-80:], show(e.args[2])[-80:]))
            uf = cx.fields("ContainerPack", r"Vec<.*Uuid>")
            if len(uf) == 1:
                lu = fld(okval(t), uf[0])
                nx = it.next.get(lu, lu) if lu.op == "lv" and lu in l.x["init"] else lu
                if nx is lu or nx.op == "push":
                    cx.ob(R, k, "its uuid is listed", nx.op == "push" and nx.a[0] is lu and l.x["init"][lu].op == "vec" and nx.a[1] is fld(loc, "uuid"), "the list of the packs becomes %s" % show(nx)[:100])
    cx.ob(R, k, "locators read", m >= 1, "")
    k = cx.m("ContainerPack", "pack_count")
    for t in oks(cx.traces(k)):
        ln = {x for x in walk(t.val) if x.op == "len" or x.op in ("call", "pure") and str(x.a[0]).endswith("::len")}
        v = evs(t.val, {x: 1000 for x in ln}) if ln else None
        if v is not None:
            cx.ob(R, k, "the number of packs", v == 1000, "1000 packs are counted as %s" % v)
    k = cx.m("ContainerPack", "get_pack_uuid")
    uf = cx.fields("ContainerPack", r"Vec<.*Uuid>")
    for t in oks(cx.traces(k)):
        if len(uf) == 1 and t.val.op == "idx" and t.val.a[0] is F(A[0], uf[0]):
            v = evs(t.val.a[1], {A[1]: 300})
            cx.ob(R, k, "the uuid of that pack", v in (None, 300), "pack 300 is taken for pack %s" % v)
    k = cx.m("ContainerPack", "get_manifest_pack_reader")
    seen = set()
    kinds = discrs(cx, "PackKind")
    for t in oks(cx.traces(k, stop=["parse_block"])):
        v = okval(t)
        lps = [l for l in t.effs if l.kind == "loop"]
        mores = [d for x, d in t.facts.items() if x.op == "more"]
        if len(lps) != 1 and (lps or not mores):
            raise Anchor("the manifest is not searched by one loop")
        for it in lps[0].x["iters"] if lps else []:
            ps = [e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("parse_block_at")]
            if len(ps) != 1:
                raise Anchor("a contained pack's header is not read")
            cx.ob(R, k, "packs passed over are not the manifest", t.E.decide(it.st, eq(mk("discr", fld(pay(ps[0].res, "Ok"), "magic")), c(kinds["Manifest"]))) is False, "the manifest is passed over")
        if isagg(v, None, "None"):
            seen.add("none")
            cx.ob(R, k, "every pack is looked at", exhausted(t, lps[0]) if lps else not all(mores), "some packs are not looked at")
            continue
        seen.add("some")
        r = fld(v, "0") if isagg(v, None, "Some") else v
        ps = [e for e in t.effs if e.kind == "call" and e.name.endswith("parse_block_at") and (is_rd(r, e.args[0]) or contains(r, lambda x: x is fld(e.args[0], "source")))]
        if not ps:
            raise Anchor("the manifest found is %s" % show(r)[:150])
        e = ps[-1]
        cx.ob(R, k, "the manifest", is_rd(r, e.args[0]) and e.args[1] is c(0) and implied(t, eq(mk("discr", fld(pay(e.res, "Ok"), "magic")), c(kinds["Manifest"]))) is True,
              "answers %s" % show(r)[:200])
    cx.ob(R, k, "found and not found", seen == {"none", "some"}, str(seen))


def exhausted(t, l):
    for lv, i0 in l.x["init"].items():
        if t.facts.get(mk("more", lv)) in (0, False):
            return not any(isagg(x) and RESTRICT.match(x.a[0]) for x in walk(i0)) and not re.search(r"Iterator::(skip|take|step_by)", show(i0)[:200])
    raise Anchor("cannot tell whether the loop visits everything")


def hv_names(v):
    r = []
    while v.op == "hv":
        r.append(str(v.a[1]) if not isinstance(v.a[1], T) else show(v.a[1]))
        v = v.a[0]
    return v, r[::-1]


def tail_parse(t):
    """(header parse effect, offset its 64 bytes are read at, well mirrored) of the tail"""
    r = []
    for e in calls(t, re.compile(r"parse_block_at$")):
        if e.args[0] is A[0] or not isagg(e.args[0], "Reader"):
            continue
        s = fld(e.args[0], "source")
        b, names = hv_names(s)
        r.append((e, b, show(s)))
    return r


def r_open(cx):
    R = "blind-open"
    cx.rule(R, "open_as_container_pack opens the pack that fills the file: the header at 0 when its size is the file's or when there is no pack at the end; otherwise the pack "
               "whose mirrored header is the last 64 bytes, from size - its size on. A container is opened as one, any other pack under the uuid of its header")
    k = cx.free("open_as_container_pack")
    kinds = discrs(cx, "PackKind")
    ts = cx.traces(k, stop=["parse_block", "create_stream", "Reader::cut$", re.compile(r"ContainerPack::new(_fake)?$")])
    size = sub(F(A[0], "region", "end"), F(A[0], "region", "begin"))
    seen = set()
    n = 0

    def head(t):
        h = [e for e in calls(t, re.compile(r"parse_block_at$")) if e.args[0] is A[0]]
        for e in h:
            if e.args[1] is not c(0):
                raise Anchor("a header is read at %s" % show(e.args[1])[:100])
        return h[0] if h else None

    def fills(t, h):
        return h is not None and variant(t, h.res) == 0 and implied(t, eq(fld(pay(h.res, "Ok"), "file_size"), size)) is True

    def tail(t):
        """None: not tried; else (valid, header)"""
        cs = [e for e in calls(t, re.compile(r"create_stream$|Read::read_exact$")) ]
        tp = tail_parse(t)
        small = implied(t, lt(size, c(64)))
        if not cs and not tp:
            return (False, None) if small is True else None
        if not tp:
            bad = any(variant(t, e.res) == 1 for e in cs)
            return (False, None) if bad else None
        e = tp[0][0]
        d = variant(t, e.res)
        if d == 1:
            return False, None
        fs = fld(pay(e.res, "Ok"), "file_size")
        if implied(t, lt(size, fs)) is True:
            return False, None
        return (True, e) if d == 0 and implied(t, le(fs, size)) is True else (None, e)
    for t in ts:
        if t.kind != "ret":
            continue
        h = head(t)
        tl = tail(t)
        cut = calls(t, re.compile(r"Reader::cut$"))
        cont = calls(t, re.compile(r"ContainerPack::new(_fake)?$"))
        if is_err(t):
            later = [e.res for e in cut + cont]
            mine = any(contains(t.val, lambda x: x is r) for r in later)
            if not mine and not cut:
                cx.ob(R, k, "a pack at the beginning is opened", not fills(t, h), "fails with %s although a pack fills the file" % show(t.val)[:100])
                cx.ob(R, k, "a pack at the end is opened", not (tl and tl[0] is True), "fails with %s although there is a pack at the end" % show(t.val)[:100])
                if tl is None and not fills(t, h):
                    cx.ob(R, k, "a pack at the end is looked for", False, "fails with %s without looking at the end of the file" % show(t.val)[:100])
            continue
        n += 1
        if len(cut) != 1 or len(cont) != 1:
            raise Anchor("the pack is not one cut of the file")
        e = cut[0]
        cx.ob(R, k, "a part of the file", e.args[0] is A[0], show(e.args[0])[:100])
        hd = [p for p in ([h] if h is not None else []) + [x[0] for x in tail_parse(t)] if e.args[2] is fld(pay(p.res, "Ok"), "file_size")]
        if not hd:
            cx.ob(R, k, "size", False, "opens %s bytes" % show(e.args[2])[:150])
            continue
        p = hd[0]
        hh = pay(p.res, "Ok")
        if p is h:
            seen.add("head")
            cx.ob(R, k, "begin (header first)", e.args[1] is c(0), "starts at %s" % show(e.args[1])[:100])
            cx.ob(R, k, "header first only when the pack fills the file or none is at the end", fills(t, h) or (tl is not None and tl[0] is False),
                  "the pack at the beginning is opened although another may end the file")
        else:
            seen.add("tail")
            cx.ob(R, k, "begin (mirrored header)", e.args[1] is sub(size, e.args[2]), "starts at %s" % show(e.args[1])[:200])
            st = calls(t, re.compile(r"create_stream$"))
            tp = tail_parse(t)[0]
            src = tp[2]
            if len(st) != 1 or "read_exact" not in src:
                raise Anchor("the end of the file is read as %s" % src[:150])
            cx.ob(R, k, "mirrored header: the last 64 bytes", st[0].args[0] is A[0] and st[0].args[1] is sub(size, c(64)) and st[0].args[2] is c(64) and p.args[1] is c(0),
                  "reads %s bytes at %s" % (show(st[0].args[2]), show(st[0].args[1])[:100]))
            for x in calls(t, re.compile(r"read_exact$")):
                b = base_obj(x.args[1])
                if contains(x.args[0], lambda y: y is pay(st[0].res, "Ok")) and b.op == "repeat" and is_c(b.a[1]):
                    cx.ob(R, k, "mirrored header: all of its bytes", b.a[1] is c(64), "%s bytes are read" % show(b.a[1]))
            cx.ob(R, k, "mirrored header: reversed", src.count("!reverse") == 1, src[:150])
        ck = implied(t, eq(mk("discr", fld(hh, "magic")), c(kinds["Container"])))
        fake = cont[0].name.endswith("new_fake")
        if ck is None:
            raise Anchor("the kind is not looked at")
        seen.add("fake" if fake else "container")
        cx.ob(R, k, "opened by its kind", ck is not fake, "a %s is opened as %s" % ("container" if ck else "pack", cont[0].name.split("::")[-1]))
        cx.ob(R, k, "the part opened", is_rd(cont[0].args[0], pay(e.res, "Ok")), show(cont[0].args[0])[:100])
        if fake:
            cx.ob(R, k, "under its own uuid", cont[0].args[1] is fld(hh, "uuid"), "under %s" % show(cont[0].args[1])[:100])
    cx.ob(R, k, "all cases", seen == {"head", "tail", "fake", "container"}, str(sorted(seen)))


def items_of(v, mem=None):
    """elements of a vector built in place: list, or None"""
    for x in walk(v):
        if x.op == "agg" and x.a[0] in ("[]", "array") and agg_get(x, "0") is not None:
            return [y for _, y in agg_items(x)]
    r = []
    x = v
    while x.op == "push":
        r.append(x.a[1])
        x = x.a[0]
    return r[::-1] or None


def r_new(cx):
    R = "open"
    cx.rule(R, "Container: the file is opened blindly, its manifest read, the directory pack located by the manifest's uuid and location; packs are looked for first in the file "
               "at hand then by the given locator (the directory of the file by default); there is a slot for every pack id of the manifest")
    k = cx.m("Container", "new_with_locator")
    n = 0
    for t in oks(cx.traces(k, stop=["locate$", "DirectoryPack::new$", "ManifestPack::new$", OPEN, "get_manifest_pack_reader$", "Reader::cut$"])):
        n += 1
        v = okval(t)
        if not isagg(v, "Container"):
            raise Anchor("new_with_locator returns %s" % show(v)[:100])
        op = calls(t, OPEN)
        mr = calls(t, re.compile(r"get_manifest_pack_reader$"))
        mp = calls(t, re.compile(r"ManifestPack::new$"))
        lc = calls(t, re.compile(r"PackLocatorTrait::locate$"))
        dp = calls(t, re.compile(r"DirectoryPack::new$"))
        if not (len(op) == len(mr) == len(mp) == len(dp) == 1 and len(lc) == 1):
            raise Anchor("opening a container: %s" % [len(x) for x in (op, mr, mp, lc, dp)])
        p = file_at(t, op[0].args[0])
        cx.ob(R, k, "the file given", p is not None and contains(p, lambda x: x is A[0]), "opens %s" % (show(p)[:100] if p is not None else None))
        cx.ob(R, k, "the manifest of that file", contains(mr[0].args[0], lambda x: x is op[0].res) and contains(mp[0].args[0], lambda x: x is mr[0].res), "")
        ct = [e for e in calls(t, re.compile(r"Reader::cut$")) if contains(mp[0].args[0], lambda x: x is e.res)]
        for e in ct:
            m = pay(mr[0].res, "Ok", "Some")
            cx.ob(R, k, "the whole manifest", e.args[1] is c(0) and e.args[2] is sub(F(m, "region", "end"), F(m, "region", "begin")), "cut at %s" % show(e.args[1]))
        man = pay(mp[0].res, "Ok")
        di = F(man, cx.field("ManifestPack", r"PackInfo$"))
        cx.ob(R, k, "directory located by uuid", lc[0].args[1] is fld(di, "uuid"), "by %s" % show(lc[0].args[1])[-100:])
        cx.ob(R, k, "directory located by location", contains(lc[0].args[2], lambda x: x is fld(di, "pack_location")) and not altered(lc[0].args[2], fld(di, "pack_location")), "at %s" % show(lc[0].args[2])[-100:])
        cx.ob(R, k, "directory opened", is_rd(dp[0].args[0], pay(lc[0].res, "Ok", "Some")), show(dp[0].args[0])[:100])
        lf = cx.field("Container", r"PackLocatorTrait|Locator")
        for what, x in (("directory", lc[0].args[0]), ("contents", fld(v, lf))):
            its = items_of(x) or items_of(final(t, x))
            if its is None:
                raise Anchor("the chain of locators is %s" % show(x)[:100])
            own = [i for i, y in enumerate(its) if contains(y, lambda z: z is op[0].res)]
            oth = [i for i, y in enumerate(its) if not contains(y, lambda z: z is op[0].res) and contains(y, lambda z: z is A[1])]
            cx.ob(R, k, "%s: the file at hand first, then the locator" % what, len(its) == 2 and own == [0] and oth == [1], "looked for in %s" % [show(y)[:60] for y in its])
        mf = cx.field("Container", r"ManifestPack$")
        df = cx.field("Container", r"DirectoryPack")
        cx.ob(R, k, "manifest kept", same_val(fld(v, mf), man), "")
        cx.ob(R, k, "directory kept", contains(fld(v, df), lambda x: x is dp[0].res), show(fld(v, df))[:100])
        pf = cx.field("Container", r"OnceLock<.*ContentPack|ContentPack")
        rs = [e for e in calls(t, re.compile(r"Vec.*::resize(_with)?$")) if base_obj(e.args[0]) is base_obj(fld(v, pf))]
        if len(rs) != 1:
            raise Anchor("the slots of the packs are not made by one resize")
        want = add(fld(man, cx.field("ManifestPack", r"^u16$")), c(1))
        cx.ob(R, k, "a slot for every id", rs[0].args[1] is want, "%s slots" % show(rs[0].args[1])[-120:])
    cx.ob(R, k, "opens", n >= 1, "")
    for k2 in (k, cx.m("ManifestPack", "new"), cx.m("ManifestPack", "max_id"), cx.m("Container", "get_pack")):
        nw = narrow_ops(cx, k2)
        cx.ob(R, k2, "slots are counted on enough bits", not nw, "%s: an %s addition wraps for the greatest pack id" % (nw and nw[0][0], nw and nw[0][1]))
    k = cx.m("Container", "new")
    for t in oks(cx.traces(k, stop=["new_with_locator$"])):
        e = calls(t, re.compile(r"new_with_locator$"))
        if len(e) != 1:
            raise Anchor("Container::new")
        b = e[0].args[1]
        par = [x for x in walk(b) if x.op in ("call", "pure") and re.search(r"Path::parent$", str(x.a[0]))]
        cx.ob(R, k, "the path given", contains(e[0].args[0], lambda x: x is A[0]), show(e[0].args[0])[:100])
        cx.ob(R, k, "locations are relative to the file's directory", len(par) == 1 and contains(par[0], lambda x: x is A[0]) and not re.search(r"join|parent.*parent", show(b)), show(b)[:150])


def r_manifest(cx):
    R = "manifest"
    cx.rule(R, "ManifestPack keeps the pack infos read at check_info_pos - 256*pack_count + 256*i: the directory's apart, every other one in the list; max_id is the greatest of "
               "their ids; a content pack's info is the first one with the wanted id")
    c12.r_offsets(cx)
    k = cx.m("ManifestPack", "new")
    kinds = discrs(cx, "PackKind")
    n = 0
    lf = cx.field("ManifestPack", r"Vec<.*PackInfo")
    mf = cx.field("ManifestPack", r"^u16$")
    df = cx.field("ManifestPack", r"PackInfo$")
    for t in oks(cx.traces(k, stop=["parse_block", "parse_data_block"])):
        v = okval(t)
        ps = [e for e in t.effs if e.kind == "call" and e.name.endswith("parse_block_at")]
        h, mh = [e for e in ps if e.args[1] is c(0)], [e for e in ps if e.args[1] is c(64)]
        if not h or not mh:
            raise Anchor("manifest headers are read at %s" % [show(e.args[1]) for e in ps])
        ci, cnt = fld(pay(h[0].res, "Ok"), "check_info_pos"), fld(pay(mh[0].res, "Ok"), "pack_count")
        cx.ob(R, k, "kind", implied(t, eq(mk("discr", fld(pay(h[0].res, "Ok"), "magic")), c(kinds["Manifest"]))) is True, "a pack of another kind is opened as a manifest")
        lps = [l for l in t.effs if l.kind == "loop" and any(e.kind == "call" and e.name.endswith("parse_block_at") for it in l.x["iters"] for e in flat(it.effs))]
        if len(lps) != 1:
            raise Anchor("the pack infos are not read by one loop")
        l = lps[0]
        full = c12.visits_all(t, l, cnt)
        if full is None:
            raise Anchor("cannot tell how many pack infos are read")
        cx.ob(R, k, "every pack info is read", full, "")
        lst, mx, dr = fld(v, lf), fld(v, mf), fld(v, df)
        if lst not in l.x["init"] or mx not in l.x["init"]:
            raise Anchor("the pack infos are not collected by the loop")
        cx.ob(R, k, "starts empty", l.x["init"][lst].op == "vec" and cval(l.x["init"][mx]) == 0, "max_id starts at %s" % show(l.x["init"][mx]))
        dlv = [lv for lv in l.x["init"] if contains(dr, lambda x: x is lv)]
        for it in l.x["iters"]:
            pb = [e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("parse_block_at")]
            if len(pb) != 1:
                raise Anchor("a pack info is not read once")
            n += 1
            a, b = c12.affine(l, it, pb[0].args[1])
            cx.ob(R, k, "positions", a is sub(ci, mulc(cnt, 256)) and b is c(256), "read at %s then every %s" % (show(a)[-150:], show(b)))
            pi = pay(pb[0].res, "Ok")
            isdir = t.E.decide(it.st, eq(mk("discr", fld(pi, "pack_kind")), c(kinds["Directory"])))
            nx, nm = it.next.get(lst, lst), it.next.get(mx, mx)
            if isdir is True:
                cx.ob(R, k, "directory apart", nx is lst and nm is mx, "the directory pack is listed with the content packs")
                if len(dlv) == 1:
                    d = it.next.get(dlv[0], dlv[0])
                    cx.ob(R, k, "directory's info", contains(d, lambda x: x is pi) or same_val(fld(d, "0"), pi), "the directory info becomes %s" % show(d)[:100])
            else:
                ok_ = nx.op == "push" and nx.a[0] is lst and same_val(nx.a[1], pi)
                cx.ob(R, k, "every content pack is listed", ok_, "the list becomes %s" % show(nx)[:150])
                pid = fld(pi, "pack_id")
                st = At(t, it)
                good = nm.op == "max" and set(nm.a) == {mx, pid} or nm is pid and t.E.decide(it.st, le(mx, pid)) is True or nm is mx and t.E.decide(it.st, le(pid, mx)) is True
                cx.ob(R, k, "max_id", good, "max_id becomes %s" % show(nm)[:150])
                for d in dlv:
                    cx.ob(R, k, "directory's info kept", it.next.get(d, d) is d, "")
    cx.ob(R, k, "infos read", n >= 2, "")


def info_of(t, locate_):
    """the pack info whose uuid a locate call asks for"""
    u = locate_.args[1]
    for x in walk(u):
        if x.op == "fld" and x.a[1] == "uuid":
            return x.a[0]
    return None


def three_way(cx, R, k, t, pid):
    """('none'|'missing'|'found', value) of the answer of a success trace, with its obligations"""
    v = okval(t)
    infos = F(A[0], cx.field("Container", r"ManifestPack$"), cx.field("ManifestPack", r"Vec<.*PackInfo"))
    packs = F(A[0], cx.field("Container", r"OnceLock<.*ContentPack|ContentPack"))
    lc = calls(t, re.compile(r"PackLocatorTrait::locate$"))
    for e in lc:
        pi = info_of(t, e)
        if pi is None:
            raise Anchor("located by %s" % show(e.args[1])[:100])
        cx.ob(R, k, "located by the uuid of a listed pack", contains(pi, lambda x: x is infos), show(pi)[:100])
        cx.ob(R, k, "at its location", contains(e.args[2], lambda x: x is fld(pi, "pack_location")) and not altered(e.args[2], fld(pi, "pack_location")), show(e.args[2])[:100])
        cx.ob(R, k, "by the container's locator", e.args[0] is F(A[0], cx.field("Container", r"PackLocatorTrait|Locator")), show(e.args[0])[:100])
        cx.ob(R, k, "the pack of that id", teq(t, fld(pi, "pack_id"), pid), "the pack asked for has another id")
    sets = calls(t, re.compile(r"OnceLock.*::(set|get_or_init|get_or_try_init)$"))
    cn = calls(t, re.compile(r"ContentPack::new$"))
    for e in cn:
        cx.ob(R, k, "opened from what was located", any(is_rd(e.args[0], pay(x.res, "Ok", "Some")) for x in lc), show(e.args[0])[:100])
    slot = mk("idx", packs, pid)
    for e in sets:
        cx.ob(R, k, "cached in its slot", e.args[0] is slot, "cached at %s" % show(e.args[0])[:100])
        cx.ob(R, k, "cached: what was opened", any(same_val(e.args[1], pay(x.res, "Ok")) for x in cn), "cached: %s" % show(e.args[1])[:100])
    if isagg(t.val) and t.val.a[1] == "Ok" and isagg(v, None, "None") or isagg(v, None, "None"):
        out = implied(t, le(mk_len(packs), pid)) is True or implied(t, lt(F(A[0], cx.field("Container", r"ManifestPack$"), cx.field("ManifestPack", r"^u16$")), pid)) is True
        lps = [l for l in t.effs if l.kind == "loop"]
        done = False
        for l in lps:
            vi = visit(t, l, infos)
            if vi is None:
                continue
            if vi[0] is not True:
                cx.ob(R, k, "unknown id: every listed pack was looked at", False, "")
                done = True
                continue
            done = True
            for it in l.x["iters"]:
                el = vi[2](it)
                d = t.E.decide(it.st, eq(fld(el, "pack_id"), pid))
                cx.ob(R, k, "unknown id: packs passed over have another id", d is False, "a pack is passed over whatever its id")
        cx.ob(R, k, "unknown only when the manifest does not list it", out or (done and not lc), "`unknown pack` is answered although the pack is listed")
        return "none", None
    if not isagg(v, None, "Some") and not isagg(v, "MayMissPack"):
        raise Anchor("answers %s" % show(v)[:150])
    mm = v if isagg(v, "MayMissPack") else fld(v, "0")
    if not isagg(mm, "MayMissPack"):
        raise Anchor("answers %s" % show(v)[:150])
    if mm.a[1] == "MISSING":
        pi = fld(mm, "0")
        mine = [e for e in lc if same_val(pi, info_of(t, e))]
        cx.ob(R, k, "missing: that pack's description", bool(mine), "described by %s" % show(pi)[:200])
        for e in mine:
            cx.ob(R, k, "missing only when not located", is_none(t, pay(e.res, "Ok")) is True, "`missing` is answered although the pack was located")
        return "missing", pi
    return "found", fld(mm, "0")


def r_three(cx):
    R = "three-way"
    cx.rule(R, "get_pack / get_bytes: `unknown` only for an id the manifest does not list; `missing`, with that pack's info, exactly when the locator does not find its uuid; "
               "otherwise the pack of that id, opened from what was located and cached only then; an absent pack is neither an error nor a panic")
    packs = F(A[0], cx.field("Container", r"OnceLock<.*ContentPack|ContentPack"))
    for name, pid in (("get_pack", A[1]), ("get_bytes", fld(A[1], "pack_id"))):
        k = cx.m("Container", name)
        ts = cx.traces(k, stop=["PackLocatorTrait.*::locate$", "ContentPack::new$", "get_content$"])
        seen = {"none": 0, "missing": 0, "found": 0}
        slot = mk("idx", packs, pid)
        mx = F(A[0], cx.field("Container", r"ManifestPack$"), cx.field("ManifestPack", r"^u16$"))
        for t in oks(ts):
            w, x = three_way(cx, R, k, t, pid)
            seen[w] += 1
            if w != "found":
                continue
            if name == "get_bytes":
                gc = [e for e in calls(t, re.compile(r"get_content$")) if contains(x, lambda y: y is e.res)]
                if len(gc) != 1:
                    cx.ob(R, k, "found: bytes of that pack", False, "answers %s" % show(x)[:150])
                    continue
                cx.ob(R, k, "found: the content asked for", gc[0].args[1] is fld(A[1], "content_id") and same_val(x, pay(gc[0].res, "Ok")), "answers %s" % show(x)[:150])
                x = gc[0].args[0]
            gs = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"OnceLock.*::(get|get_or_init|get_or_try_init)$", e.name) and contains(x, lambda y: y is e.res)]
            cn = [e for e in calls(t, re.compile(r"ContentPack::new$")) if contains(x, lambda y: y is e.res)]
            if not gs and not cn:
                raise Anchor("the pack found is %s" % show(x)[:150])
            for e in gs:
                cx.ob(R, k, "found: the slot of that id", e.args[0] is slot, "taken from %s" % show(e.args[0])[:100])
        cx.ob(R, k, "all three answers", all(seen.values()), str(seen))
        for t in errs(ts):
            src = [e for e in flat(t.effs) if e.kind == "call" and e.res is not None and re.search(r"locate$|ContentPack::new$|get_content$", e.name) and contains(t.val, lambda y: y is e.res)]
            cx.ob(R, k, "an error is one of reading", bool(src), "fails with %s" % show(t.val)[:150])
        for t in ts:
            if any(y is slot for e in flat(t.effs) for a in list(e.args) for y in walk(a)):
                bad = [n for n in (3, 4, 65535) if consistent(t.bnd, t.facts, {mk_len(packs): 3, mx: 2, pid: n})]
                cx.ob(R, k, "an id out of the table is not looked up", not bad, "with %d slots, the slot of pack %s is looked at: panics" % (3, bad and bad[0]))
            if t.kind != "panic":
                continue
            for e in calls(t, re.compile(r"PackLocatorTrait::locate$")):
                cx.ob(R, k, "an absent pack is not a panic", is_none(t, pay(e.res, "Ok")) is not True, "panics (%s) when the pack is absent" % t.why)


def r_maymiss(cx):
    R = "may-miss"
    cx.rule(R, "MayMissPack::{map, get, as_ref, transpose} keep `missing` and its description, and `found` and its value, apart")
    n = 0
    for k, f in sorted(cx.lib.fns.items()):
        if not (f["local"] and f.get("root") and f.get("selfd", "").endswith("MayMissPack") and f.get("name") in ("map", "get", "as_ref", "transpose")):
            continue
        nm = f["name"]
        for t in oks(cx.traces(k)):
            d = variant(t, A[0])
            if d is None:
                raise Anchor("%s does not look at the variant" % k)
            v = t.val
            n += 1
            if d == 0:
                pi = pay(A[0], "MISSING")
                ms = [x for x in walk(v) if isagg(x, "MayMissPack")]
                if nm == "get":
                    cx.ob(R, k, "missing", isagg(v, None, "None"), show(v)[:100])
                else:
                    cx.ob(R, k, "missing", len(ms) == 1 and ms[0].a[1] == "MISSING" and same_val(fld(ms[0], "0"), pi) and (nm != "transpose" or isagg(v) and v.a[1] in ("Ok", "Some")), show(v)[:200])
            else:
                x = pay(A[0], "FOUND")
                ms = [y for y in walk(v) if isagg(y, "MayMissPack")]
                if nm == "get":
                    cx.ob(R, k, "found", isagg(v, None, "Some") and fld(v, "0") is x, show(v)[:100])
                elif nm == "as_ref":
                    cx.ob(R, k, "found", len(ms) == 1 and ms[0].a[1] == "FOUND" and fld(ms[0], "0") is x, show(v)[:100])
                elif nm == "map":
                    cx.ob(R, k, "found", len(ms) == 1 and ms[0].a[1] == "FOUND" and contains(fld(ms[0], "0"), lambda y: y is x) and fld(ms[0], "0") is not x, show(v)[:150])
                else:
                    good = variant(t, x)
                    opt = "Option" in k.split("transpose")[0]
                    inner = (good == 1) if opt else (good == 0)
                    if inner:
                        cx.ob(R, k, "found", len(ms) == 1 and ms[0].a[1] == "FOUND" and same_val(fld(ms[0], "0"), pay(x, "Some" if opt else "Ok")), show(v)[:150])
                    else:
                        cx.ob(R, k, "found nothing", not ms and isagg(v, None, "None" if opt else "Err"), show(v)[:150])
        for t in errs(cx.traces(k)):
            d = variant(t, A[0])
            cx.ob(R, k, "errors are those found", d == 1 and contains(t.val, lambda y: y is pay(A[0], "FOUND")), show(t.val)[:150])
    if n < 6:
        raise Anchor("MayMissPack methods")


READER = [("chain", r_chain), ("file-locator", r_fs), ("container-pack", r_container_pack), ("blind-open", r_open), ("open", r_new), ("manifest", r_manifest), ("three-way", r_three)]
