"""C04 — created packs verify; a change of checksummed bytes makes the check fail."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *
from . import c12, c13, c14

LEVEL = "other"
FLOOR = 100
TECHNIQUE = ("value-flow analysis of MIR: on every path of every check function the returned boolean is the comparison of the stored hash with the BLAKE3 of the bytes "
             "[pack start, check_info_pos), true is only returned with no hash stored, and no component's verdict is dropped; on every path of every creator the hash "
             "stored at check_info_pos is that of the bytes from the pack's start up to there, computed after the last write to them")
ASSUMPTIONS = ["BLAKE3 is collision free", "std seek/read/write as documented", "the underlying file is not changed while it is being checked"]
SELFCHECK = ("Pack>?::check$", "parse_block", "locate$", "open_as_container_pack", "PackLocator", re.compile(r"(Manifest|Directory|Content)Pack::new$"))
HASHED = {"ContentPack": "Content", "DirectoryPack": "Directory", "ManifestPack": "Manifest"}


def hasher_src(t, h):
    """source a hash term was computed from: finalize(update_reader(new(), src)) and nothing else"""
    fin = [e for e in calls(t, re.compile(r"Hasher::finalize$")) if e.res is h]
    if len(fin) != 1:
        return None
    st = fin[0].args[0]
    ups = [e for e in flat(t.effs) if e.kind == "call" and re.search(r"Hasher::update\w*$", e.name)]
    new = base_obj(st)
    mine = [e for e in ups if base_obj(e.args[0]) is new]
    if len(mine) != 1 or not mine[0].name.endswith("update_reader"):
        raise Anchor("the hash is not computed by one update_reader")
    return mine[0].args[1]


def r_packs(cx):
    R = "pack-check"
    cx.rule(R, "Pack::check of content, directory and manifest packs: the result is `stored hash == BLAKE3(stream over [0, check_info_pos))` where the stored hash is "
               "the one read at check_info_pos (or cached from there); true without comparing only when no hash is stored")
    for typ in HASHED:
        k = cx.m(typ, "check", "Pack")
        cmp_ = 0
        for t in oks(cx.traces(k, stop=["parse_block"])):
            ci = F(A[0], "pack_header", "check_info_pos")
            size = F(A[0], "pack_header", "file_size")
            for e in calls(t, re.compile(r"Reader::parse_block")):
                cx.ob(R, k, "%s: stored hash read at check_info_pos" % typ, e.args[0] is F(A[0], "reader") and e.args[1] is ci, "read at %s" % show(e.args[1])[:200])
                if e.name.endswith("parse_block_in"):
                    cx.ob(R, k, "%s: size of the check info" % typ, e.args[2] is sub(sub(size, ci), c(68)), "reads %s bytes" % show(e.args[2])[:200])
            v = okval(t)
            hs = [e.res for e in calls(t, re.compile(r"Hasher::finalize$"))]
            if cval(v) is not None and not hs:
                if cval(v) == 0:
                    cx.ob(R, k, "%s: verdict" % typ, False, "false is returned without comparing")
                else:
                    none = [x for x in t.bnd if x.op == "discr" and x.a[0].op in ("pl", "fld") and stored(t, x.a[0], ci) and (t.bnd[x][1] == 0 or 1 in t.bnd[x][2])]
                    cx.ob(R, k, "%s: true without comparing" % typ, bool(none), "true is returned without comparing although a hash is stored")
                continue
            if len(hs) != 1:
                raise Anchor("%s::check computes %d hashes" % (typ, len(hs)))
            h = hs[0]
            cmp_ += 1
            if cval(v) is not None:
                d = [(x, tr) for x, tr in t.facts.items() if x.op == "eq" and (whole(x.a[0], h) or whole(x.a[1], h))]
                if not d:
                    cx.ob(R, k, "%s: verdict" % typ, False, "%s is returned whatever the hash" % show(v))
                    continue
                x, tr = d[0]
                other = x.a[0] if whole(x.a[1], h) else x.a[1]
                cx.ob(R, k, "%s: verdict" % typ, bool(cval(v)) == bool(tr), "returns %s when hash equality is %s" % (show(v), tr))
            elif v.op == "eq" and whole(v.a[0], h) is not whole(v.a[1], h):
                other = v.a[0] if whole(v.a[1], h) else v.a[1]
                cx.ob(R, k, "%s: verdict" % typ, True)
            else:
                cx.ob(R, k, "%s: verdict" % typ, False, "returns %s" % show(v)[:300])
                continue
            cx.ob(R, k, "%s: compared with the stored hash" % typ, stored(t, other, ci), "compared with %s" % show(other)[:300])
            src = hasher_src(t, h)
            if src is None:
                raise Anchor("hash source")
            cut = [e for e in calls(t, re.compile(r"Source::cut$")) if contains(src, lambda x: x is e.res)]
            if len(cut) != 1:
                raise Anchor("%s::check does not hash one cut of the pack" % typ)
            rg, b = cut[0].args[1], F(A[0], "reader", "region", "begin")
            cx.ob(R, k, "%s: hashes [0, check_info_pos)" % typ, fld(rg, "begin") is b and fld(rg, "end") is add(b, ci), "hashes %s" % show(rg)[:200])
            cx.ob(R, k, "%s: of this pack" % typ, cut[0].args[0] is F(A[0], "reader", "source"), show(cut[0].args[0])[:200])
            ss = aggs(src, "ByteStream")
            if len(ss) != 1:
                raise Anchor("hashed stream is %s" % show(src)[:200])
            o = fld(ss[0], "offset")
            cx.ob(R, k, "%s: from its first byte" % typ, o is F(mk("pl", cut[0].res, "Ok", "0"), "1", "begin"), "the hashed stream starts at %s" % show(o)[:200])
        cx.ob(R, k, "%s: a hash is compared" % typ, cmp_ >= 1, "no path compares the hash")


def whole(v, h):
    """v is h, possibly seen as its 32 bytes"""
    while v is not h and v.op in ("call", "pure") and re.search(r"(as_bytes|as_ref|into|from|deref|borrow|as_slice|to_bytes)$", str(v.a[0])):
        a = [x for x in v.a[1:] if isinstance(x, T)]
        if len(a) == 1 and a[0].op == "tup":
            a = list(a[0].a)
        if len(a) != 1:
            return False
        v = a[0]
    return v is h


def stored(t, v, ci):
    """v comes from the check info parsed at check_info_pos, or from the pack's cache of it"""
    if contains(v, lambda x: x.op == "call" and re.search(r"Hasher", str(x.a[0]))):
        return False
    for e in flat(t.effs):
        if e.kind == "call" and re.search(r"Reader::parse_block", e.name) and e.res is not None and contains(v, lambda x: x is e.res):
            return True
    return contains(v, lambda x: x.op in ("fld", "locked") and "check_info" in show(x)[-40:] or x is F(A[0], "check_info"))


CHK = re.compile(r"(Pack|ContainerPack|CheckInfo|Container)>?::check$|Pack::check$")


def verdicts(effs):
    return [e for e in effs if e.kind == "call" and (CHK.search(e.name) or CHK.search(e.rdef or ""))]


def said(E, st, e):
    """verdict of a check call known on a path: True / False / None (None: unknown, or an error)"""
    r = e.res
    for p in (mk("pl", r, "Ok", "0"), fld(mk("var", r, "Ok"), "0")):
        d = E.decide(st, eq(p, c(1)))
        if d is None:
            d2 = st.facts.get(p)
            d = None if d2 is None else bool(d2)
        if d is not None:
            ok_ = E.decide(st, eq(mk("discr", r), c(0)))
            return d if ok_ is not False else None
    return None


def top(effs):
    return [e for e in effs if e.kind == "call"]


def conj(cx, R, k, t, need=None):
    """value of an aggregated check: true only when every verdict asked for is true, false only when one is false"""
    v = okval(t)
    vs = verdicts(top(t.effs))
    if cval(v) is None:
        own = [e for e in vs if v is mk("pl", e.res, "Ok", "0") or v is fld(mk("var", e.res, "Ok"), "0")]
        if len(own) != 1:
            raise Anchor("%s returns %s" % (k, show(v)[:200]))
        rest = [e for e in vs if e is not own[0]]
        for e in rest:
            cx.ob(R, k, "verdict used: %s" % short(e.name), said(t.E, t.st, e) is True, "the result of %s does not reach the returned verdict" % e.name)
        return True
    if cval(v) == 0:
        cx.ob(R, k, "false has a reason", any(said(t.E, t.st, e) is False for e in vs) or uneq(t), "false is returned although no component is known to fail")
        return False
    for e in vs:
        cx.ob(R, k, "verdict used: %s" % short(e.name), said(t.E, t.st, e) is True, "true is returned although %s may have reported failure" % e.name)
    return True


def uneq(t):
    return any(x.op == "eq" and v in (0, False) for x, v in t.facts.items() if x.op == "eq")


def r_container(cx):
    R = "container-check"
    cx.rule(R, "Container::check is true only when the manifest's, the directory's and every located pack's check are; every pack info is located in turn and only a "
               "missing pack is skipped; ContainerPack::check is true only when every contained pack's check, by its kind, is")
    k = cx.m("Container", "check")
    n = 0
    for t in oks(cx.traces(k, stop=["Pack>?::check$", "parse_block", "locate$", "open_as_container_pack"])):
        if not conj(cx, R, k, t):
            continue
        n += 1
        vs = verdicts(top(t.effs))
        for f in ("manifest_pack", "directory_pack"):
            cx.ob(R, k, "%s checked" % f, any(e.args[0] is F(A[0], f) or contains(e.args[0], lambda x: x is F(A[0], f)) for e in vs), "true is returned without checking %s" % f)
        lps = [e for e in t.effs if e.kind == "loop"]
        infos = F(A[0], "manifest_pack", "pack_infos")
        done = False
        for l in lps:
            if not any(match(e, "PackLocatorTrait::locate") for it in l.x["iters"] for e in flat(it.effs)):
                continue
            done = True
            vi = visit(t, l, infos)
            if vi is None:
                raise Anchor("cannot tell which packs the loop visits")
            cx.ob(R, k, "all the packs", vi[0] is True, "some pack infos are not looked at before true is returned")
            for it in l.x["iters"]:
                loc = [e for e in flat(it.effs) if e.kind == "call" and match(e, "PackLocatorTrait::locate")]
                if not loc:
                    cx.ob(R, k, "every pack is looked for", False, "a pack info is passed over without locating its pack")
                    continue
                el = vi[2](it)
                cx.ob(R, k, "located by its uuid", contains(loc[0].args[1], lambda x: x is fld(el, "uuid")), "locates %s" % show(loc[0].args[1])[:200])
                r = mk("pl", loc[0].res, "Ok", "0")
                missing = t.E.decide(it.st, eq(mk("discr", r), c(0)))
                cs = verdicts(flat(it.effs))
                mine = [e for e in cs if contains(e.args[0], lambda x: x is loc[0].res)]
                if missing is True:
                    cx.ob(R, k, "missing pack skipped", not mine, "")
                else:
                    cx.ob(R, k, "located pack checked", len(mine) >= 1 and all(said(t.E, it.st, e) is True for e in cs), "a located pack is passed over although its check is not known to succeed")
        if not done:
            if not lps and not any(match(e, "PackLocatorTrait::locate") for e in top(t.effs)):
                cx.ob(R, k, "content packs checked", False, "true is returned without looking at the content packs")
            else:
                raise Anchor("content packs are not checked by a loop of this function")
    cx.ob(R, k, "a success path exists", n >= 1, "")
    k = cx.m("ContainerPack", "check")
    kinds = discrs(cx, "PackKind")
    names = {"ManifestPack": "Manifest", "DirectoryPack": "Directory", "ContentPack": "Content"}
    n = 0
    for t in oks(cx.traces(k, stop=["Pack>?::check$", "parse_block", "Pack::new$"])):
        if not conj(cx, R, k, t):
            continue
        n += 1
        lps = [e for e in t.effs if e.kind == "loop"]
        if len(lps) != 1:
            raise Anchor("ContainerPack::check is not one loop")
        seen = set()
        for it in lps[0].x["iters"]:
            cs = verdicts(flat(it.effs))
            if not cs:
                cx.ob(R, k, "every contained pack is checked", False, "a pack is passed over without a check")
                continue
            for e in cs:
                cx.ob(R, k, "contained pack's verdict used", said(t.E, it.st, e) is True, "a pack is passed over although its check is not known to succeed")
                for nm, kd in names.items():
                    if contains(e.args[0], lambda x: x.op in ("call", "pure") and re.search(r"%s::new$" % nm, str(x.a[0]))):
                        seen.add(kd)
                        hd = [x for x in flat(it.effs) if x.kind == "call" and re.search("parse_block", x.name)]
                        if hd:
                            mg = fld(mk("pl", hd[0].res, "Ok", "0"), "magic")
                            cx.ob(R, k, "%s checked as such" % kd, t.E.decide(it.st, eq(mk("discr", mg), c(kinds[kd]))) is not False and
                                  (t.E.decide(it.st, eq(mg, c(kinds[kd]))) is not False), "a pack of another kind is checked as %s" % kd)
        cx.ob(R, k, "the three kinds of packs", seen == set(names.values()), "kinds checked: %s" % sorted(seen))
        it0 = [v for v in lps[0].x["init"].values()]
        lim = [x for v in it0 for x in walk(v) if x.op in ("call", "pure", "take", "skip") and re.search(r"(take|skip|filter|step_by)\w*$", str(x.a[0]) if x.op in ("call", "pure") else x.op)]
        cx.ob(R, k, "all the packs", not lim, "the packs checked are %s" % [show(v)[:100] for v in it0])
    cx.ob(R, k, "a success path exists", n >= 1, "")


def r_creators(cx):
    R = "creator-hash"
    cx.rule(R, "each creator stores, at check_info_pos, the BLAKE3 of the bytes from the pack's start to there: the stream is rewound to the start after both headers are "
               "written, read to the end by the hasher, and the hash is appended with nothing written in between")
    for kind in ("Content", "Directory", "Manifest"):
        ps = PackStream(cx, kind)
        for s in ps.ss:
            start, h, kh = check_stream(cx, R, ps, s)
            cis = objs(s, lambda v: is_check(v) is not None)
            ci = is_check(cis[-1][2].args[1])
            if not isagg(ci, None, "Some"):
                cx.ob(R, ps.key, "%s: a hash is stored" % kind, False, "the check info is %s" % show(ci)[:100])
                continue
            hv = fld(ci, "0")
            src = hasher_src(s.t, hv)
            if src is None:
                raise Anchor("%s: the stored hash is %s" % (kind, show(hv)[:100]))
            i = s.log.index(cis[-1])
            rd = [l for l in s.log[:i] if l[0] == "read-to-end"]
            if not rd:
                raise Anchor("%s: the hasher does not read the file" % kind)
            cx.ob(R, ps.key, "%s: hashed from the pack's start" % kind, rd[-1][1] is start, "hashed from %s, the pack starts at %s" % (show(rd[-1][1]), show(start)))
            j = s.log.index(rd[-1])
            cx.ob(R, ps.key, "%s: hash computed after the last write" % kind, all(l[0] == "read" for l in s.log[j + 1:i]), "written after hashing: %s" % [str(l[0])[:60] for l in s.log[j + 1:i]])
            hd = [s.log.index(l) for n in ("PackHeader", ps.header) for l in s.find(n)]
            cx.ob(R, ps.key, "%s: headers written before hashing" % kind, all(x < j for x in hd), "a header is written after the hash is computed")
            # the whole file is hashed: the stream itself, or (manifest) its masked view
            lim = [x for x in walk(src) if x.op in ("call", "pure") and re.search(r"Read::(take|chain)$", str(x.a[0]))]
            cx.ob(R, ps.key, "%s: hashed to the end" % kind, not lim, "only a part is hashed: %s" % show(src)[:200])
    # the pack data handed to the manifest carry the pack's own check info and size
    k = cx.m("CheckInfo", "new_blake3")
    for t in oks(cx.traces(k)):
        v = is_check(okval(t))
        src = hasher_src(t, fld(v, "0")) if v is not None and v.a[1] == "Some" else None
        if v is not None and v.a[1] == "None":
            cx.ob(R, k, "hash of the source", False, "no hash is produced")
        elif src is None:
            raise Anchor("CheckInfo::new_blake3 returns %s" % show(okval(t))[:100])
        else:
            cx.ob(R, k, "hash of the source", src is A[0], "hashes %s" % show(src)[:100])


def r_size(cx):
    R = "check-size"
    cx.rule(R, "a pack's check info occupies the bytes from check_info_pos to 64 bytes (+ its 4-byte block check) before the pack's end")
    k = cx.m("PackHeader", "check_info_size")
    for t in oks(cx.traces(k)):
        v = okval(t)
        want = sub(sub(F(A[0], "file_size"), F(A[0], "check_info_pos")), c(68))
        cx.ob(R, k, "size", teq(t, v, want), show(v)[:200])


RULES = [("pack-check", r_packs), ("container-check", r_container), ("creator-hash", r_creators), ("check-size", r_size), ("mask", c12.r_mask),
         ("check-info", c14.checkinfo), ("stream", c13.r_stream), ("source", c13.r_sources)]
