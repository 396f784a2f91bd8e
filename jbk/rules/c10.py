"""C10 — a container reads the same however its packs are packaged."""
from .core import *
from .wire import *
from .layout import *
from .stream import *
from .packs import *
from . import locate, c14, c13
from .manifest import r_packdata
from .locate import pay, is_rd, variant

LEVEL = "other"
FLOOR = 300
TECHNIQUE = ("value-flow analysis of MIR: where each packaging writes each pack, what the locator tables and the manifest record about it (uuid, position, size, location), and what "
             "the readers take from them, are compared as terms; loops over packs, inputs and locators are shown to visit every element")
ASSUMPTIONS = ["std file, seek and path functions as documented", "pathdiff::diff_utf8_paths(p, b) joined to b designates p", "packs are not moved relatively to each other",
               "different packs have different uuids"]
STOPS10 = (re.compile(r"PackCreator.*::finalize$"), "FinalizedDirectoryPackCreator.*::write$", re.compile(r"InContainerFile.*::close$"), "into_file$", "close_file$", "add_pack$",
           "from_file$", "AtomicOutFile::new$", "EntryStoreTrait")
RULES = []


class Pk:
    """the packs, files and containers of one path of BasicCreator::finalize"""

    def __init__(self, t):
        self.t = t
        self.ef = [e for e in flat(t.effs) if e.kind == "call"]
        self.by = {e.res: e for e in self.ef if e.res is not None}

    def call(self, v):
        """effect a value is a payload of"""
        while v is not None and v not in self.by:
            if v.op in ("hv", "upd", "pl", "fld", "var", "push"):
                v = v.a[0]
            else:
                return None
        return self.by.get(v)

    def root(self, v):
        """the file something is written in"""
        for _ in range(40):
            e = self.call(v)
            if e is None:
                return base_obj(v)
            n = e.name.split("::")[-1]
            if n in ("close", "into_file", "from_file") or n == "finalize" and "ContainerPackCreator" in (e.rdef or e.name):
                v = e.args[0]
            elif n == "finalize" and e.args and "Creator" in (e.rdef or e.name) or n == "new":
                return e.res
            else:
                return e.res
        return None


def name_of(e):
    return e.rdef or e.name


def r_packaging(cx):
    R = "packaging"
    cx.rule(R, "BasicCreator::finalize, every mode: each pack is recorded once in the manifest with its own description; a pack that is not in the manifest's own file has as location "
               "the path of the file it was closed in, relative to the directory of the output; a pack put in a container is registered there under its own uuid; the manifest ends in "
               "the output file; every extra pack is recorded")
    k = cx.m("BasicCreator", "finalize")
    ts = oks(cx.traces(k, stop=STOPS10))
    modes = discrs(cx, "ConcatMode")
    outp = F(A[0], cx.field("BasicCreator", r"Utf8PathBuf"))
    mode = F(A[0], cx.field("BasicCreator", r"ConcatMode"))
    own = F(A[0], cx.field("BasicCreator", r"ContentPackCreator"))
    seen = set()
    extras = 0
    for t in ts:
        p = Pk(t)
        md = [n for n, d in modes.items() if implied(t, eq(mk("discr", mode), c(d))) is True]
        if not md:
            md = ["not " + n for n, d in modes.items() if implied(t, eq(mk("discr", mode), c(d))) is False]
        seen.add(tuple(md))
        mf = [e for e in p.ef if re.search(r"ManifestPackCreator.*::finalize$", name_of(e))]
        if len(mf) != 1:
            raise Anchor("the manifest is written %d times" % len(mf))
        mroot = p.root(mf[0].args[1])
        # the manifest's file is the output
        me = p.by.get(mroot)
        if me is not None and re.search(r"AtomicOutFile::new$", me.name):
            cx.ob(R, k, "the manifest is in the output file", me.args[0] is outp or same_path(me.args[0], outp), "it is put at %s" % show(me.args[0])[:100])
        elif me is not None and re.search(r"ContentPackCreator.*::finalize$", name_of(me)) and me.args[0] is own:
            cx.ob(R, k, "the manifest is in the content's file only in OneFile mode", md == ["OneFile"], "in mode %s it is in the content's file" % md)
        else:
            raise Anchor("the manifest is in %s" % show(mroot)[:100])
        # registered in its container under its uuid
        for e in p.ef:
            if re.search(r"InContainerFile.*::close$", name_of(e)):
                closed(cx, R, k, t, p, e)
        adds = [(None, e) for e in t.effs if e.kind == "call" and re.search(r"ManifestPackCreator.*::add_pack$", name_of(e))]
        for l in [l for l in t.effs if l.kind == "loop"]:
            for it in l.x["iters"]:
                adds += [((l, it), e) for e in flat(it.effs) if e.kind == "call" and re.search(r"ManifestPackCreator.*::add_pack$", name_of(e))]
        kinds = {"directory": 0, "content": 0}
        for ctx, e in adds:
            cx.ob(R, k, "recorded in the manifest written", grown_from(t, mf[0].args[0], base_obj(e.args[0])) or ctx is not None, "")
            w, n = which(p, t, ctx, e.args[1], own)
            if w is None:
                raise Anchor("the pack recorded is %s" % show(e.args[1])[:120])
            if w == "extra":
                extras += 1
                extra(cx, R, k, t, p, ctx, e, outp)
                continue
            kinds[w] += 1
            src = p.call(e.args[1])
            proot = p.root(src.args[1]) if w == "directory" else src.res
            if proot is mroot:
                cx.ob(R, k, "%s: same file as the manifest" % w, True)
                reg = [x for x in p.ef if re.search(r"InContainerFile.*::close$", name_of(x)) and p.root(x.args[0]) is proot and p.call(x.args[1]) is src]
                cx.ob(R, k, "%s: registered in the container" % w, len(reg) == 1, "the pack is in the output file but not in its locator table")
                continue
            if w == "content" or re.search(r"into_file|InContainer", show(src.args[1])):
                reg = [x for x in p.ef if re.search(r"InContainerFile.*::close$", name_of(x)) and p.root(x.args[0]) is proot and p.call(x.args[1]) is src]
                cx.ob(R, k, "%s: registered in the container" % w, len(reg) == 1, "the pack is in a container but not in its locator table")
            location(cx, R, k, t, p, w, e.args[2], proot, outp)
        for w, n in kinds.items():
            cx.ob(R, k, "%s: recorded once" % w, n == 1, "recorded %d times" % n)
        # files are closed
        files = {p.root(x.args[1]) for x in p.ef if re.search(r"FinalizedDirectoryPackCreator.*::write$|ManifestPackCreator.*::finalize$", name_of(x))}
        files |= {x.res for x in p.ef if re.search(r"ContentPackCreator.*::finalize$", name_of(x)) and x.args[0] is own}
        done = {p.root(x.args[0]) for x in p.ef if x.name.endswith("close_file")}
        for f in files:
            cx.ob(R, k, "every file is closed", f in done, "a file a pack was written in is not closed: %s" % show(f)[:100])
        for x in p.ef:
            if x.name.endswith("close_file") and any(re.search(r"InContainerFile.*::close$", name_of(y)) and p.root(y.args[0]) is p.root(x.args[0]) for y in p.ef):
                src = p.call(x.args[0])
                fin = src is not None and re.search(r"ContainerPackCreator.*::finalize$", name_of(src))
                cx.ob(R, k, "containers are finalized before they are closed", bool(fin), "closed after %s" % (src and src.name))
                if fin:
                    allc = [y for y in p.ef if re.search(r"InContainerFile.*::close$", name_of(y)) and p.root(y.args[0]) is p.root(x.args[0])]
                    cx.ob(R, k, "containers are finalized with every pack put in them", p.call(src.args[0]) is allc[-1], "")
    cx.ob(R, k, "every mode", len(seen) >= 3, str(seen))
    cx.ob(R, k, "extra packs are recorded", extras >= 1, "no extra pack is recorded")


def same_path(v, p):
    while v is not p and v.op in ("call", "pure") and re.search(r"(clone|as_path|deref|as_ref|to_path_buf|to_owned|borrow)$", str(v.a[0])):
        xs = [y for y in (v.a[1] if isinstance(v.a[1], tuple) else v.a[1:]) if isinstance(y, T)]
        if len(xs) != 1:
            return False
        v = xs[0]
    return v is p


def closed(cx, R, k, t, p, e):
    """e closes a pack put in a container: the uuid is that of the pack written there"""
    h = e.args[0]
    src = p.call(h)
    u = e.args[1]
    us = p.call(u)
    b = h
    # what was written in this holder
    names = []
    while b.op == "hv":
        names.append(str(b.a[1]))
        b = b.a[0]
    w = [x for x in p.ef if re.search(r"FinalizedDirectoryPackCreator.*::write$|ManifestPackCreator.*::finalize$", name_of(x)) and base_obj(x.args[1]) is b]
    if re.search(r"ContentPackCreator.*::finalize$", name_of(src) if src else ""):
        w = [src]
    if len(w) != 1:
        raise Anchor("what a container's file holds when it is closed: %s" % show(h)[:100])
    ok_ = us is w[0]
    if ok_ and not re.search(r"ManifestPackCreator", name_of(w[0])):
        ok_ = u.op == "fld" and u.a[1] == "uuid"
    cx.ob(R, k, "registered under its own uuid", ok_, "the pack written by %s is registered under %s" % (w[0].name, show(u)[:100]))


def which(p, t, ctx, info, own):
    e = p.call(info)
    if e is not None:
        n = name_of(e)
        if re.search(r"FinalizedDirectoryPackCreator.*::write$", n):
            return "directory", e
        if re.search(r"ContentPackCreator.*::finalize$", n):
            return ("content" if e.args[0] is own else "extra"), e
    if ctx is not None:
        return "extra", None
    return None, None


def is_diff(t, v, P, outp):
    """v is the path P relative to the output's directory (or P itself when it has none); None: not understood"""
    if contains(v, lambda x: x is P):
        df = [x for x in walk(v) if x.op == "call" and re.search(r"diff_utf8_paths$", str(x.a[0]))]
        empty = [d for x, d in t.facts.items() if re.search(r"is_empty", show(x)[:60]) and contains(x, lambda y: y is P)]
        if isempty(t, P) is True:
            return True
        if df:
            b = df[0].a[1][1]
            par = b.op == "pl" and b.a[0].op in ("call", "pure") and re.search(r"parent$", str(b.a[0].a[0])) and contains(b, lambda x: x is outp)
            if not contains(df[0].a[1][0], lambda x: x is P):
                return False
            return bool(par)
        ab = [x for x in walk(v) if x.op == "call" and re.search(r"absolute_utf8$", str(x.a[0]))]
        if ab and v.op == "pl" and v.a[0] is ab[0]:
            # only when there is no relative path
            return any(x.op == "discr" and "diff_utf8_paths" in show(x)[:80] for x in t.bnd)
        if v is P:
            return False
        if re.search(r"file_name", show(v)[:200]):
            return "name"
        return None
    return False


def isempty(t, P):
    n = mk_len(P)
    for z in (n, mk_len(mk("fld", P, "inner"))):
        d = t.E.decide(t.st, eq(z, c(0)))
        if d is not None:
            return d
    for x, d in list(t.facts.items()):
        if x.op == "eq" and any(y is c(0) for y in x.a) and any(y.op == "len" and contains(y, lambda z: z is P) for y in x.a):
            return bool(d)
    for x, (lo, hi, ex) in t.bnd.items():
        if x.op == "len" and contains(x, lambda z: z is P):
            if hi == 0:
                return True
            if lo is not None and lo > 0 or 0 in ex:
                return False
    return None


def location(cx, R, k, t, p, w, loc, proot, outp):
    cf = [x for x in p.ef if x.name.endswith("close_file") and p.root(x.args[0]) is proot]
    if len(cf) != 1:
        raise Anchor("the file of the %s pack is closed %d times" % (w, len(cf)))
    P = pay(cf[0].res, "Ok")
    d = is_diff(t, loc, P, outp)
    if d is None:
        raise Anchor("location of the %s pack: %s" % (w, show(loc)[:150]))
    cx.ob(R, k, "%s: location" % w, bool(d), "the pack is in the file closed as %s, its location is %s" % (show(P)[:80], show(loc)[:150]))


def collected(t, seq):
    """(loop, iteration, element added or None) of the loop which makes the list"""
    r = []
    for L in t.effs:
        if L.kind != "loop":
            continue
        for i2 in L.x["iters"]:
            ys = [y for y in flat(i2.effs) if y.kind == "yield"]
            r += [(L, i2, y.args[-1]) for y in ys]
            if seq in L.x["init"]:
                nx = i2.next.get(seq, seq)
                if nx is not seq and not (nx.op == "push" and nx.a[0] is seq):
                    raise Anchor("the list becomes %s" % show(nx)[:100])
                r.append((L, i2, None if nx is seq else nx.a[1]))
    return r


def extra(cx, R, k, t, p, ctx, e, outp):
    if ctx is None:
        raise Anchor("an extra pack is recorded outside a loop")
    l, it = ctx
    info, loc = e.args[1], e.args[2]
    # the pair (info, path) collected from (finalize, close_file)
    x = info
    while x.op == "fld" and not (x.a[0].op in ("idx", "elem")):
        x = x.a[0]
    if x.op == "fld" and x.a[0].op == "elem":
        i0 = l.x["init"].get(x.a[0].a[0])
        if i0 is not None and any(isagg(y) and RESTRICT.match(y.a[0]) for y in walk(i0)):
            cx.ob(R, k, "every extra pack is recorded", False, "some extra packs are not recorded")
            return
    if x.op == "fld" and x.a[0].op == "idx":
        el = x.a[0]
        seq = el.a[0]
        col = [z for z in walk(seq) if z.op == "collect"] or [seq]
        made = collected(t, seq)
        if not made:
            raise Anchor("the extra packs are not collected")
        vi = visit(t, l, seq)
        if vi is None:
            raise Anchor("cannot tell which extra packs are recorded")
        cx.ob(R, k, "every extra pack is recorded", vi[0] is True, "some extra packs are not recorded")
        for L, i2, v in made:
            if v is None:
                cx.ob(R, k, "every extra pack is finalized", False, "an extra pack is left out")
            else:
                    fi = [z for z in flat(i2.effs) if z.kind == "call" and re.search(r"ContentPackCreator.*::finalize$", name_of(z))]
                    cf = [z for z in flat(i2.effs) if z.kind == "call" and z.name.endswith("close_file")]
                    if len(fi) != 1 or len(cf) != 1:
                        raise Anchor("an extra pack is not finalized and closed once")
                    iname = x.a[1]
                    others = [f for f, _ in agg_items(v) if f != iname]
                    cx.ob(R, k, "extra: its own description", contains(fld(v, iname), lambda z: z is fi[0].res), "described by %s" % show(fld(v, iname))[:100])
                    lname = others[0] if len(others) == 1 else None
                    cx.ob(R, k, "extra: the path of its file", lname is not None and fld(v, lname) is pay(cf[0].res, "Ok") and contains(cf[0].args[0], lambda z: z is fi[0].res), "path %s" % show(v)[:150])
                    seq0 = [z.a[0] for z in walk(fi[0].args[0]) if z.op == "idx" and z.a[0] is A[2]]
                    if not seq0:
                        raise Anchor("the extra packs finalized are %s" % show(fi[0].args[0])[:100])
                    v0 = visit(t, L, A[2])
                    if v0 is None:
                        raise Anchor("cannot tell which extra packs are finalized")
                    cx.ob(R, k, "every extra pack is finalized", v0[0] is True, "some extra packs are not written")
                    if lname is not None:
                        class It:
                            pass
                        tt = It()
                        tt.E, tt.st, tt.facts, tt.bnd = t.E, it.st, it.facts, it.bnd
                        d = is_diff(tt, loc, fld(el, lname), outp)
                        if d is None:
                            raise Anchor("location of an extra pack: %s" % show(loc)[:150])
                        cx.ob(R, k, "extra: location", d is True, "the location is %s" % show(loc)[-200:])
        return
    ce = p.call(info)
    if ce is None or not re.search(r"ContentPackCreator.*::finalize$", name_of(ce)):
        raise Anchor("the extra pack recorded is %s" % show(info)[:150])
    cf = [z for z in flat(it.effs) if z.kind == "call" and z.name.endswith("close_file") and p.root(z.args[0]) is ce.res]
    v0 = visit(t, l, A[2])
    if v0 is None or len(cf) != 1:
        raise Anchor("cannot tell which extra packs are recorded")
    cx.ob(R, k, "every extra pack is recorded", v0[0] is True, "some extra packs are not recorded")

    class It2:
        E, st, facts, bnd = t.E, it.st, it.facts, it.bnd
    d = is_diff(It2, loc, pay(cf[0].res, "Ok"), outp)
    if d is None:
        raise Anchor("location of an extra pack: %s" % show(loc)[:150])
    cx.ob(R, k, "extra: location", d is True, "the location is %s" % show(loc)[-200:])


def r_start(cx):
    R = "start"
    cx.rule(R, "BasicCreator::new: the output path is made absolute; the content pack (id 1) is put in a container, at the output path in OneFile mode and elsewhere otherwise; the directory has id 0")
    k = cx.m("BasicCreator", "new")
    modes = discrs(cx, "ConcatMode")
    n = 0
    for t in oks(cx.traces(k, stop=["AtomicOutFile::new$", "from_file$", "into_file$", "new_from_output", "DirectoryPackCreator::new$"])):
        v = okval(t)
        if not isagg(v, "BasicCreator"):
            raise Anchor("BasicCreator::new returns %s" % show(v)[:100])
        n += 1
        out = fld(v, cx.field("BasicCreator", r"Utf8PathBuf"))
        ab = out.op == "pl" and re.search(r"absolute_utf8$", str(out.a[0].a[0])) and contains(out, lambda x: x is A[0])
        if not ab and not contains(out, lambda x: x is A[0]):
            cx.ob(R, k, "output path", False, show(out)[:100])
        cx.ob(R, k, "output path is absolute", bool(ab), "it is %s" % show(out)[:100])
        fs = calls(t, re.compile(r"AtomicOutFile::new$"))
        if len(fs) != 1:
            raise Anchor("files made: %d" % len(fs))
        one = implied(t, eq(mk("discr", A[1]), c(modes["OneFile"])))
        if one is None:
            raise Anchor("the file does not depend on the mode")
        at_out = same_path(fs[0].args[0], out)
        cx.ob(R, k, "content in the output only in OneFile mode", at_out is one, "OneFile: %s, in the output: %s" % (one, at_out))
        ff = calls(t, re.compile(r"from_file$"))
        inf = calls(t, re.compile(r"into_file$"))
        cr = [e for e in calls(t, re.compile(r"ContentPackCreator.*::new_from_output")) if True]
        if len(ff) != 1 or len(inf) != 1 or len(cr) != 1:
            raise Anchor("the content pack is not put in one container")
        cx.ob(R, k, "content in a container in that file", contains(ff[0].args[0], lambda x: x is fs[0].res) and contains(inf[0].args[0], lambda x: x is ff[0].res) and contains(cr[0].args[0], lambda x: x is inf[0].res), "")
        cx.ob(R, k, "content pack id 1", cr[0].args[1] is c(1), "id %s" % show(cr[0].args[1]))
        dc = calls(t, re.compile(r"DirectoryPackCreator::new$"))
        cx.ob(R, k, "directory pack id 0", len(dc) == 1 and dc[0].args[0] is c(0), "")
        cx.ob(R, k, "mode kept", fld(v, cx.field("BasicCreator", r"ConcatMode")) is A[1] or locate.same_val(fld(v, cx.field("BasicCreator", r"ConcatMode")), A[1]) or
              implied(t, eq(mk("discr", fld(v, cx.field("BasicCreator", r"ConcatMode"))), mk("discr", A[1]))) is True or isagg(fld(v, cx.field("BasicCreator", r"ConcatMode"))), "")
    cx.ob(R, k, "both kinds", n >= 2, str(n))


def r_locators(cx):
    R = "locators"
    cx.rule(R, "a pack added to a container (copied, or written in place between into_file and close) is registered with the uuid given, the position of its first byte in the file and "
               "its size; the cursor is left at the end of the file")
    k = cx.m("ContainerPackCreator", "add_pack")
    pf = cx.field("ContainerPackCreator", r"Vec<.*PackLocator")
    for t in oks(cx.traces(k)):
        s = Stream(t, sinks=[F(A[0], cx.field("ContainerPackCreator", r"Box<F>|^F$"))])
        cp = [l for l in s.log if isinstance(l[0], tuple) and "copy" in str(l[0][0])]
        ws = [l for l in s.log if l[0] not in ("read",)]
        if not ws and not any(contains(a, lambda y: y is A[2]) for e in flat(t.effs) if e.kind in ("call", "loop") for a in e.args):
            cx.ob(R, k, "the whole pack is copied", False, "nothing is read from the pack given")
            continue
        if len(cp) != 1 or len(ws) != 1:
            raise Anchor("the pack is not copied by one copy")
        ce = cp[0][2]
        whole = ce.args[0] is A[2] or base_obj(ce.args[0]) is A[2]
        if not whole and not contains(ce.args[0], lambda x: x is A[2]):
            raise Anchor("copies %s" % show(ce.args[0])[:100])
        cx.ob(R, k, "the whole pack is copied", whole, "copies %s" % show(ce.args[0])[:100])
        ps = [e for e in calls(t, re.compile(r"::push$")) if base_obj(e.args[0]) is F(A[0], pf)]
        cx.ob(R, k, "registered once", len(ps) == 1, "%d times" % len(ps))
        for e in ps:
            pl = s.res(e.args[1])
            cx.ob(R, k, "uuid", fld(pl, "uuid") is A[1], show(fld(pl, "uuid")))
            cx.ob(R, k, "position", fld(pl, "pack_pos") is cp[0][1], "registered at %s, copied at %s" % (show(fld(pl, "pack_pos")), show(cp[0][1])))
            end = s.pos
            cx.ob(R, k, "size", fld(pl, "pack_size") is sub(end, cp[0][1]) or fld(pl, "pack_size") is pay(ce.res, "Ok"), "registered with %s" % show(fld(pl, "pack_size"))[:150])
        cx.ob(R, k, "cursor at the end", s.at_end, "")
    k = cx.m("ContainerPackCreator", "into_file")
    sk = cx.field("InContainerFile", r"Skip")
    icp = cx.field("InContainerFile", r"Vec<.*PackLocator")
    skf = cx.field("Skip", r"^u64$")
    for t in oks(cx.traces(k)):
        s = Stream(t)
        v = okval(t)
        cx.ob(R, k, "starts at the cursor", s.res(F(v, sk, skf)) is sym("P0") and not [l for l in s.log], "starts at %s" % show(s.res(F(v, sk, skf)))[:100])
        cx.ob(R, k, "packs kept", fld(v, icp) is F(A[0], pf), show(fld(v, icp))[:100])
    k = cx.m("InContainerFile", "close")
    for t in oks(cx.traces(k)):
        s = Stream(t)
        v = okval(t)
        q = fld(v, pf)
        if not (q.op == "push" and q.a[0] is F(A[0], icp)):
            cx.ob(R, k, "registered once", False, "the packs become %s" % show(q)[:150])
            continue
        cx.ob(R, k, "registered once", True)
        pl = s.res(q.a[1])
        st = F(A[0], sk, skf)
        cx.ob(R, k, "uuid", fld(pl, "uuid") is A[1], show(fld(pl, "uuid")))
        cx.ob(R, k, "position", fld(pl, "pack_pos") is st, "registered at %s" % show(fld(pl, "pack_pos"))[:100])
        ends = [e for e in calls(t, re.compile(r"Seek::seek$")) if isagg(e.args[1], None, "End") and fld(e.args[1], "0") is c(0)]
        cx.ob(R, k, "size", s.end is not None and fld(pl, "pack_size") is sub(s.end, st), "registered with %s, the file ends at %s" % (show(fld(pl, "pack_size"))[:100], show(s.end) if s.end is not None else None))
        cx.ob(R, k, "cursor at the end", s.at_end, "the next pack would be written over this one")
        cx.ob(R, k, "same file", base_obj(fld(v, cx.field("ContainerPackCreator", r"Box<F>|^F$"))) is F(A[0], sk, cx.field("Skip", r"^R$")), show(fld(v, "file"))[:100])
    k = cx.m("ContainerPackCreator", "from_file")
    for t in oks(cx.traces(k)):
        s = Stream(t)
        v = okval(t)
        cx.ob(R, k, "packs start after the headers", s.pos is c(128), "packs start at %s" % show(s.pos))
        cx.ob(R, k, "no pack yet", fld(v, pf).op == "vec", show(fld(v, pf))[:100])


def r_skip(cx):
    R = "in-place"
    cx.rule(R, "a pack written in place in a container sees positions relative to its own start (Skip): seeks from the start are shifted, results shifted back, a position before "
               "the start is an error; reads and writes go through unchanged")
    k = cx.m("Skip", "seek", "Seek")
    rf, skf = cx.field("Skip", r"^R$"), cx.field("Skip", r"^u64$")
    sk = F(A[0], skf)
    d0 = 0
    kinds = set()
    for t in oks(cx.traces(k)):
        es = calls(t, re.compile(r"Seek::seek$"))
        if len(es) != 1:
            raise Anchor("Skip::seek seeks %d times" % len(es))
        e = es[0]
        st = implied(t, eq(mk("discr", A[1]), c(0)))
        kinds.add(st)
        cx.ob(R, k, "on the file", base_obj(e.args[0]) is F(A[0], rf), show(e.args[0]))
        if st is True:
            cx.ob(R, k, "from the start: shifted", isagg(e.args[1], None, "Start") and fld(e.args[1], "0") is add(sk, mk("pl", A[1], "Start", "0")), "seeks %s" % show(e.args[1])[:150])
        elif st is False:
            cx.ob(R, k, "from elsewhere: unchanged", e.args[1] is A[1] or locate.same_val(e.args[1], A[1]) or inner_same(e.args[1]), "seeks %s" % show(e.args[1])[:150])
        else:
            cx.ob(R, k, "shift", False, "the origin of the seek is not looked at")
        r = pay(e.res, "Ok")
        cx.ob(R, k, "result is relative", okval(t) is sub(r, sk), "answers %s" % show(okval(t))[:150])
        cx.ob(R, k, "not before the start", implied(t, le(sk, r)) is True, "a position before the pack's start is accepted")
    cx.ob(R, k, "both kinds", kinds == {True, False}, str(kinds))
    n = 0
    for typ in ("Skip", "InContainerFile"):
        inner = F(A[0], rf) if typ == "Skip" else F(A[0], cx.field("InContainerFile", r"Skip"), rf)
        for m, tr, pat in (("read", "Read", r"Read::read$"), ("write", "Write", r"Write::write$")):
            k = cx.m(typ, m, tr)
            for t in oks(cx.traces(k)):
                es = calls(t, re.compile(pat))
                if len(es) != 1:
                    raise Anchor("%s::%s" % (typ, m))
                n += 1
                cx.ob(R, k, "%s passes through" % m, base_obj(es[0].args[0]) is inner and es[0].args[1] is A[1] and (t.val is es[0].res or okval(t) is pay(es[0].res, "Ok")), show(t.val)[:100])
    k = cx.m("InContainerFile", "seek", "Seek")
    for t in oks(cx.traces(k, stop=[re.compile(r"Skip<.*>::seek$|Skip<R> as .*Seek>::seek$")])):
        es = calls(t, re.compile(r"seek$"))
        if len(es) != 1:
            continue
        n += 1
    if n < 4:
        raise Anchor("pass-through methods")


def inner_same(v):
    """SeekFrom rebuilt from $1"""
    return isagg(v) and all(x is mk("pl", A[1], v.a[1], f) for f, x in agg_items(v))


def r_concat(cx):
    R = "concat"
    cx.rule(R, "concat copies every pack of every input, whole and under its own uuid, into one container, then finalizes it; a container input gives its packs, any other pack itself")
    k = cx.free("concat", mod="tools")
    n = 0
    for t in oks(cx.traces(k, stop=["::open_pack$", re.compile(r"ContainerPackCreator.*::(add_pack|finalize|new)$"), "create_stream$"])):
        fin = [e for e in t.effs if e.kind == "call" and re.search(r"ContainerPackCreator.*::finalize$", e.rdef or e.name)]
        new = [e for e in t.effs if e.kind == "call" and re.search(r"ContainerPackCreator.*::new$", e.rdef or e.name)]
        if len(new) != 1:
            raise Anchor("concat makes %d containers" % len(new))
        cx.ob(R, k, "in the output", contains(new[0].args[0], lambda x: x is A[1]), show(new[0].args[0])[:100])
        cx.ob(R, k, "finalized once", len(fin) == 1 and grown_from(t, fin[0].args[0], new[0].res), "finalized %d times" % len(fin))
        lps = [l for l in t.effs if l.kind == "loop" and any(e.kind == "call" and e.name.endswith("open_pack") for it in l.x["iters"] for e in flat(it.effs))]
        if len(lps) != 1:
            raise Anchor("the inputs are not opened by one loop")
        vi = visit(t, lps[0], A[0])
        if vi is None:
            raise Anchor("cannot tell which inputs are opened")
        cx.ob(R, k, "every input", vi[0] is True, "some inputs are left out")
        for it in lps[0].x["iters"]:
            op = [e for e in flat(it.effs) if e.kind == "call" and e.name.endswith("open_pack")]
            if len(op) != 1:
                cx.ob(R, k, "every input is opened", False, "an input is passed over")
                continue
            inner = [l for l in it.effs if l.kind == "loop"]
            if len(inner) != 1:
                raise Anchor("the packs of an input are not copied by one loop")
            l = inner[0]
            m = [i0 for lv, i0 in l.x["init"].items() if contains(i0, lambda x: x is op[0].res)]
            if not m:
                raise Anchor("the packs copied are not those of the input")
            plain = [i0 for i0 in m if re.search(r"HashMap.*::(iter|into_iter)$|IntoIterator::into_iter$", str(i0.a[0]))]
            cx.ob(R, k, "every pack of an input", not any(re.search(r"(skip|take|filter|step_by)", show(i0)[:80]) or any(isagg(x) and RESTRICT.match(x.a[0]) for x in walk(i0)) for i0 in m + [w for w in l.x["whole"].values() if contains(w, lambda x: x is op[0].res)]), "some packs are left out")
            for i2 in l.x["iters"]:
                ad = [e for e in flat(i2.effs) if e.kind == "call" and re.search(r"ContainerPackCreator.*::add_pack$", e.rdef or e.name)]
                if len(ad) != 1:
                    cx.ob(R, k, "every pack is added", False, "a pack is passed over (or added %d times)" % len(ad))
                    continue
                n += 1
                u = ad[0].args[1]
                if not (u.op == "fld" and u.a[1] == "0" and u.a[0].op == "elem"):
                    cx.ob(R, k, "under its uuid", False, "under %s" % show(u)[:100])
                    continue
                cx.ob(R, k, "under its uuid", True)
                rd = fld(u.a[0], "1")
                cs = [e for e in flat(i2.effs) if e.kind == "call" and e.name.endswith("create_stream")]
                mine = [e for e in cs if contains(ad[0].args[2], lambda x: x is e.res)]
                if len(mine) != 1:
                    raise Anchor("what is copied: %s" % show(ad[0].args[2])[:100])
                e = mine[0]
                cx.ob(R, k, "the whole pack", is_rd(e.args[0], rd) and e.args[1] is c(0) and e.args[2] is sub(F(rd, "region", "end"), F(rd, "region", "begin")),
                      "copies [%s, +%s)" % (show(e.args[1]), show(e.args[2])[:100]))
    cx.ob(R, k, "packs are added", n >= 1, "")
    k = cx.free("open_pack", mod="tools")
    kinds = discrs(cx, "PackKind")
    seen = set()
    for t in oks(cx.traces(k, stop=["parse_block", re.compile(r"ContainerPack::new(_fake)?$"), re.compile(r"open_as_container_pack$")])):
        bl = calls(t, re.compile(r"open_as_container_pack$"))
        if bl:
            seen |= {"fake", "new"}
            cx.ob(R, k, "the file given", contains(locate.file_at(t, bl[0].args[0]) or c(0), lambda x: x is A[0]), "")
            continue
        nw = calls(t, re.compile(r"ContainerPack::new(_fake)?$"))
        ps = calls(t, re.compile(r"parse_block_at$"))
        if len(nw) != 1 or len(ps) != 1:
            raise Anchor("open_pack")
        h = pay(ps[0].res, "Ok")
        fake = nw[0].name.endswith("new_fake")
        seen.add("fake" if fake else "new")
        isc = implied(t, eq(mk("discr", fld(h, "magic")), c(kinds["Container"])))
        cx.ob(R, k, "opened by its kind", isc is (not fake), "")
        p = locate.file_at(t, nw[0].args[0])
        cx.ob(R, k, "the file given", p is not None and contains(p, lambda x: x is A[0]) and ps[0].args[1] is c(0), "opens %s" % show(nw[0].args[0])[:100])
        if fake:
            cx.ob(R, k, "under its own uuid", nw[0].args[1] is fld(h, "uuid"), "under %s" % show(nw[0].args[1])[:100])
    cx.ob(R, k, "both kinds", seen == {"fake", "new"}, str(seen))


def r_layout(cx):
    cx.rule("writer", "PackLocator, ContainerPackHeader, PackInfo: frozen bytes")
    cx.rule("reader", "same, parsers")
    for n in ("PackLocator", "ContainerPackHeader", "PackInfo", "ManifestPackHeader", "PackHeader"):
        check_writer(cx, "writer", cx.m(n, "serialize", "Serializable"), n)
        ks = cx.keys(r"(^|<|::)%s as .*Parsable>::parse::<jubako::bases::parsing::SliceParser" % n)
        if not ks:
            raise Anchor("parser of %s" % n)
        check_reader(cx, "reader", ks[0], n)


def r_container_creator(cx):
    c14.creators(cx, kinds=("Container", "Manifest"))


RULES = locate.READER + [("packaging", r_packaging), ("start", r_start), ("locators", r_locators), ("in-place", r_skip), ("pack-data", r_packdata), ("concat", r_concat),
                         ("layout", r_layout), ("container-creator", r_container_creator), ("size", c13.r_sizes)]
