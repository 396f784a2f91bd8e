"""C09 — creation is all-or-nothing at the destination path: outputs only appear by renaming a finished temporary file, the entry point last."""
from .core import *
from .wire import *
from .layout import *
from . import errs

LEVEL = "other"
FLOOR = 400
TECHNIQUE = ("effect and ordering analysis of MIR: call-graph effect analysis of everything the high-level creator can run (the only operations on the file system are making a temporary "
             "file in the destination directory and renaming it), typestate on every path of the finalisation (a file is renamed only after everything written to it is known to have "
             "succeeded, the entry-point file after all others), and an error-flow analysis of every function of a creation")
ASSUMPTIONS = ["tempfile: NamedTempFile::new_in makes a new file in the given directory, persist renames it over the destination atomically and dropping it removes it",
               "crash means process termination, not power loss (as the property says)", "the pack creators write what the reader needs (C01, C02, C10, C14)",
               "Write::write_all and io::copy write everything or fail"]

# operations that create, change, rename or remove something on the file system
FSOP = re.compile(r"^std::fs::(rename|copy|write|remove_\w+|create_\w+|hard_link|soft_link|set_permissions|set_times)|^std::fs::(File|OpenOptions)(::<.*>)?::(create|create_new|create_buffered|set_len|open|set_permissions|"
                  r"set_times|set_modified)$|^std::os::\w+::fs::|^std::process::|^<?tempfile::.*::(persist\w*|keep|new\w*|into_\w+|close|cleanup|disable_cleanup|reopen|make\w*|tempfile\w*|tempdir\w*|spooled\w*|put_temp\w*)$|^libc::|^nix::|^rustix::|::fs::(rename|remove|unlink|link)|FileExt::write|mapped_mut|map_mut|"
                  r"^<std::fs::File as core::convert::From|FromRawFd|^camino::Utf8Path::(create|remove|rename)")
READ_OPEN = re.compile(r"^std::fs::File::open$")
NEW_IN = re.compile(r"tempfile::.*NamedTempFile.*::new_in$")
PERSIST = re.compile(r"NamedTempFile.*::persist$|^<F>::persist$")


def rdef(b):
    f = b["t"].get("f", {})
    return str(f.get("rdef") or f.get("def") or "")


def entries(cx):
    r = [cx.m("BasicCreator", n) for n in ("new", "finalize", "add_content")]
    r += cx.roots(lambda f: f.get("self") and re.search(r"BasicCreator$", f.get("selfd") or "") and not f.get("closure"))
    r += cx.roots(lambda f: f.get("trait") == "core::ops::drop::Drop")
    return list(dict.fromkeys(r))


def members(cx):
    """what a creation through the high-level creator can run, and the same without the reading side"""
    rs = cx.reach(entries(cx))
    al = [k for k in rs if cx.lib.fns[k]["local"]]
    own = [k for k in al if cx.lib.fns[k].get("root") and "::reader::" not in k]
    clo = {}
    for k in sorted(al, key=len):
        f = cx.lib.fns[k]
        if f.get("closure") and "::reader::" not in f["path"]:
            clo.setdefault(f["path"], k)
    return al, own + [k for k in clo.values() if k not in own]


def closer(cx):
    ks = cx.roots(lambda f: f.get("name") == "close_file" and (f.get("trait") or "").endswith("PackRecipient") and any(PERSIST.search(rdef(b)) for b in _inl(cx, f)))
    if not ks:
        raise Anchor("no close_file renames a temporary file")
    return ks


def _inl(cx, f):
    for k in cx.reach([f["key"]]):
        for b in cx.lib.fns[k]["blocks"]:
            if b["t"]["k"] == "call":
                yield b


def r_output(cx):
    R = "output"
    cx.rule(R, "nothing a creation through the high-level creator can run operates on the file system, other than making a temporary file (NamedTempFile::new_in) and renaming it (persist); "
               "the rename can only be reached through close_file")
    al, _ = members(cx)
    for k in al:
        f = cx.lib.fns[k]
        if not f.get("root") and not f.get("closure"):
            continue
        ops = set()
        for b in f["blocks"]:
            if b["t"]["k"] == "call":
                n = rdef(b)
                if FSOP.search(n) and not NEW_IN.search(n) and not PERSIST.search(n):
                    ops.add(n)
        cx.ob(R, k, "operations on files", not ops, "a creation can run %s" % sorted(ops))
    cl = closer(cx)
    left = cx.reach(entries(cx), without=set(cl))
    dr = cx.roots(lambda f: f.get("trait") == "core::ops::drop::Drop")
    for k in left:
        f = cx.lib.fns[k]
        if f["local"] and any(b["t"]["k"] == "call" and PERSIST.search(rdef(b)) for b in f["blocks"]):
            cx.ob(R, k, "renames only in close_file", False, "renames a file outside of close_file")
    cx.ob(R, "crate", "reach", len(al) > 300, "only %d functions" % len(al))


def strip_path(v):
    """the path text behind the usual views of it"""
    while v is not None and v.op == "call" and re.search(r"(to_path_buf|as_path|as_std_path|as_ref|into|from|deref|clone|to_owned)$", v.a[0]) and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def r_temp(cx):
    R = "temporary"
    cx.rule(R, "a file of the high-level creator is a temporary file made in the directory of its final path, and close_file renames that very file to that very path and reports a failure to do so")
    ad = [a for k, a in cx.lib.adts.items() if a.get("local") and any(re.search("NamedTempFile", f[1]) for f in a["variants"][0]["fields"])]
    if len(ad) != 1:
        raise Anchor("type holding the temporary file: %d" % len(ad))
    name = [k for k, a in cx.lib.adts.items() if a is ad[0]][0].split("::")[-1]
    tf = cx.field(name, "NamedTempFile")
    pf = cx.field(name, "PathBuf")
    mk_ = [k for k in cx.roots(lambda f: not f.get("closure") and any(b["t"]["k"] == "call" and NEW_IN.search(rdef(b)) for b in f["blocks"]))]
    n = 0
    k = cx.m(name, "new")
    for t in oks(cx.traces(k)):
        for v in aggs(t.val, name):
            n += 1
            src = [e for e in calls(t, re.compile(r"NamedTempFile|tempfile")) if contains(fld(v, tf), lambda x: x is e.res)]
            if len(src) != 1:
                raise Anchor("origin of the temporary file")
            e = src[0]
            dest = strip_path(fld(v, pf))
            good = bool(NEW_IN.search(e.name)) and len(e.args) == 1
            d = strip_path(e.args[-1]) if e.args else None
            par = d is not None and contains(d, lambda x: x.op == "call" and x.a[0].endswith("::parent") and strip_path(x.a[1][0]) is dest)
            cx.ob(R, k, "in the destination directory", good and par, "%s for %s" % (show_eff(e), show(dest)))
            cx.ob(R, k, "final path as given", contains(dest, lambda x: x is A[0]), show(dest))
    cx.ob(R, k, "constructed", n >= 1, "")
    for k2 in cx.roots(lambda f: not f.get("closure")):
        if k2 != k and name in k2 and cx.fn(k2).get("name") == "new":
            pass
    m = 0
    for k in closer(cx):
        for t in cx.traces(k):
            if t.kind != "ret":
                continue
            ps = calls(t, PERSIST)
            if is_err(t):
                continue
            m += 1
            cx.ob(R, k, "renamed", len(ps) == 1 and t.E.decide(t.st, eq(mk("discr", ps[0].res), c(0))) is True,
                  "close_file succeeds %s" % ("without renaming" if not ps else "although the rename may have failed"))
            for e in ps:
                cx.ob(R, k, "own file to own path", base_obj(e.args[0]) is F(A[0], tf) and strip_path(e.args[1]) is F(A[0], pf), show_eff(e))
                w = [x for x in flat(t.effs) if x.kind == "call" and re.search(r"Write::|fs::|tempfile", x.name) and x is not e and not re.search(r"flush$|sync_(all|data)$|as_file", x.name)]
                cx.ob(R, k, "nothing else happens to the file", not w, "%s" % [x.name for x in w])
    cx.ob(R, "crate", "close paths", m >= 1, "")


def show_eff(e):
    return "%s(%s)" % (short(e.name), ", ".join(show(a)[:120] for a in e.args))


STOPS = [r"ContentPackCreator.*(finalize|new_from_output\w*)$", r"DirectoryPackCreator.*(finalize|write|new)$", r"ManifestPackCreator.*(finalize|add_pack)$",
         r"ContainerPackCreator.*(from_file|into_file|finalize|add_pack)$", r"InContainerFile.*::close$", r"AtomicOutFile.*::new$", r"close_file$"]
CLOSE = re.compile(r"close_file$")
NEWF = re.compile(r"AtomicOutFile::new$")


def content_path(cx):
    """path of the file the content pack is written to, by mode: how BasicCreator::new makes it"""
    R = "content-file"
    cx.rule(R, "the content pack is written to a temporary file for the output path itself in one-file mode, and for another path otherwise (never the path of the entry point)")
    k = cx.m("BasicCreator", "new")
    of = discrs(cx, "ConcatMode")["OneFile"]
    n = [0, 0]
    for t in oks(cx.traces(k, stop=STOPS)):
        v = aggs(t.val, "BasicCreator")
        if not v:
            if t.val.op == "agg" and t.val.a[1] == "Ok":
                raise Anchor("BasicCreator::new's value")
            continue
        v = v[0]
        out = fld(v, cx.field("BasicCreator", "PathBuf"))
        mode = fld(v, cx.field("BasicCreator", "ConcatMode"))
        nf = [e for e in calls(t, NEWF) if contains(fld(v, cx.field("BasicCreator", "ContentPackCreator")), lambda x: x is e.res)]
        if len(nf) != 1:
            raise Anchor("the file of the content pack")
        p = strip_path(nf[0].args[0])
        one = t.E.decide(t.st, eq(mk("discr", mode), c(of)))
        cx.ob(R, k, "the mode is the one asked for", mode is A[1], show(mode))
        if one is True:
            n[0] += 1
            cx.ob(R, k, "one file: the output path", p is strip_path(out), "%s instead of %s" % (show(p), show(out)))
        elif one is False:
            n[1] += 1
            cx.ob(R, k, "other modes: another path", distinct(t, p, out), "the content pack may be put at the entry point's path: %s" % show(p))
        else:
            same = p is strip_path(out)
            cx.ob(R, k, "mode decides", False, "the content file is %s whatever the mode" % show(p))
    cx.ob(R, k, "both kinds", n[0] >= 1 and n[1] >= 1, str(n))


def distinct(t, p, out):
    """p is known to be another path than out"""
    out = strip_path(out)
    p2 = p
    vers = [p]
    while p2.op == "hv":
        p2 = p2.a[0]
        vers.append(p2)
    for i, x in enumerate(vers):
        e = t.E.decide(t.st, gen_eq(out, x))
        if e is None:
            e = t.E.decide(t.st, gen_eq(x, out))
        if e is False and i == 0:
            return True
        if e is True and i >= 1:
            # changed after it was found to be the same
            return True
    if any(x.op == "call" and re.search(r"add_extension|with_added_extension|push_str|format", x.a[0]) or x.op == "hv" and re.search(r"add_extension|push_str", x.a[1]) for x in walk(p)):
        return True
    if p is out or strip_path(p2) is out or p2.op == "call" and re.search(r"(with|set)_extension", p2.a[0]):
        return False
    raise Anchor("cannot tell whether %s is another path" % show(p)[:200])


def r_order(cx):
    R = "order"
    cx.rule(R, "on every path of the finalisation (returning or not): when a file is closed, everything done before it is known to have succeeded and the pack creator writing to it has finished; "
               "the file at the output path is closed last, after all others; a successful return has closed every file it made")
    k = cx.m("BasicCreator", "finalize")
    of = discrs(cx, "ConcatMode")["OneFile"]
    E0 = Engine(cx.lib)
    outp, modef, cpf = cx.field("BasicCreator", "PathBuf"), cx.field("BasicCreator", "ConcatMode"), cx.field("BasicCreator", "ContentPackCreator")
    out, mode, cp = F(A[0], outp), F(A[0], modef), F(A[0], cpf)
    stops = STOPS + ["EntryStoreTrait::finalize$"]
    ts = cx.traces(k, stop=stops)

    def risky(t, e):
        return e.kind == "call" and e.res is not None and e.x and e.x.get("dty") is not None and errs.has_result(t.E, e.x["dty"])

    def kind(t, v):
        """which file: 'entry', 'content', 'other', 'extra'"""
        one = t.E.decide(t.st, eq(mk("discr", mode), c(of)))
        fs = [x for x in walk(v) if x.op == "call" and NEWF.search(x.a[0])]
        if fs:
            f = [x for x in fs if not any(y is not x and contains(y, lambda z: z is x) for y in fs)]
            p = strip_path(fs[0].a[1][0])
            if len({strip_path(x.a[1][0]) for x in fs}) != 1:
                raise Anchor("a file made of several")
            return "entry" if p is out else ("other", p)
        if contains(v, lambda x: x is cp):
            if one is None:
                raise Anchor("content file closed before the mode is looked at")
            return "entry" if one else ("content", None)
        if contains(v, lambda x: x is A[2] or x.op in ("idx", "elem")):
            return ("extra", None)
        raise Anchor("which file is closed: %s" % show(v)[:200])

    def finished(t, v):
        """the file handed to close is what a pack creator gave back (or wrote to) when it finished"""
        r = []
        for x in walk(v):
            if x.op == "call" and re.search(r"(ContainerPackCreator|ContentPackCreator|<F>|<O>).*::finalize$", x.a[0]):
                r.append(x)
            if x.op == "hv" and re.search(r"(ManifestPackCreator::finalize|DirectoryPackCreator::write|\bfinalize|\bwrite)$", x.a[1]):
                r.append(x)
        return r

    def visit_path(t, effs, st, done, inloop):
        """done: closes so far"""
        risk = []
        for e in effs:
            if e.kind == "loop":
                for it in e.x["iters"]:
                    inner = [x for x in flat(it.effs) if x.kind == "call" and CLOSE.search(x.name)]
                    if inner:
                        for x in inner:
                            kd = kind(t, x.args[0])
                            cx.ob(R, k, "closed in a loop: not the entry point", kd != "entry", "the output path is written in a loop")
                            cx.ob(R, k, "closed in a loop: finished", finished(t, x.args[0]), "closes %s" % show(x.args[0])[:200])
                            cx.ob(R, k, "closed in a loop: before the entry point", "entry" not in [d[0] for d in done], "a pack file is completed after the entry point")
                        seen = []
                        for x in it.effs:
                            if x.kind == "call" and CLOSE.search(x.name):
                                for y in seen:
                                    cx.ob(R, k, "closed in a loop: all succeeded", settled_at(t, it.st, y), "closes a file although %s may have failed" % short(y.name))
                            if risky(t, x):
                                seen.append(x)
                        if it.next is not None and any(True for _ in it.next):
                            for y in seen:
                                cx.ob(R, k, "next iteration: all succeeded", settled_at(t, it.st, y) or carried(it, y), "goes on although %s may have failed" % short(y.name))
                continue
            if e.kind == "call" and CLOSE.search(e.name):
                kd = kind(t, e.args[0])
                for y in risk:
                    cx.ob(R, k, "%s: all succeeded" % (kd if isinstance(kd, str) else kd[0]), settled_at(t, st, y), "closes %s although %s may have failed" % (show(e.args[0])[:100], short(y.name)))
                cx.ob(R, k, "%s: finished" % (kd if isinstance(kd, str) else kd[0]), finished(t, e.args[0]), "closes %s, which no pack creator has finished" % show(e.args[0])[:200])
                cx.ob(R, k, "the entry point is the last one", "entry" not in [d[0] for d in done], "closes %s after the entry point" % show(e.args[0])[:100])
                if kd != "entry" and kd[0] == "other":
                    cx.ob(R, k, "another path", distinct(t, kd[1], out), "a pack may be put at the entry point's path: %s" % show(kd[1]))
                done.append(("entry" if kd == "entry" else kd[0], e))
            if risky(t, e):
                risk.append(e)
        return risk

    def settled_at(t, st, y):
        return errs.settled(t.E, st, y.res, y.x["dty"], lambda v: False)

    def carried(it, y):
        return any(x.kind in ("yield", "cret") and any(contains(a, lambda z: z is y.res) for a in x.args) for x in it.effs) or any(contains(x, lambda z: z is y.res) for x in it.next.values())

    n = 0
    for t in ts:
        done = []
        risk = visit_path(t, t.effs, t.st, done, False)
        if t.kind == "ret" and not is_err(t):
            n += 1
            kinds = [d[0] for d in done]
            cx.ob(R, k, "success: the entry point is in place", kinds.count("entry") == 1, "returns success having closed %s" % kinds)
            for y in risk:
                cx.ob(R, k, "success: %s" % short(y.name), settled_at(t, t.st, y) or contains(t.val, lambda z: z is y.res), "returns success although %s may have failed" % short(y.name))
            one = t.E.decide(t.st, eq(mk("discr", mode), c(of)))
            if one is False:
                cx.ob(R, k, "success: the content file is in place", "content" in kinds, "closed %s" % kinds)
            made = [e for e in calls(t, NEWF)]
            for e in made:
                cx.ob(R, k, "success: every file made is closed", any(contains(d[1].args[0], lambda z: z is e.res) for d in done), "%s is never closed" % show(e.res)[:150])
            ex = [e for e in t.effs if e.kind == "loop" and any(CLOSE.search(x.name) for it in e.x["iters"] for x in flat(it.effs) if x.kind == "call")]
            for e in ex:
                r = visit(t, e, A[2])
                if r is None:
                    raise Anchor("loop over the extra packs")
                cx.ob(R, k, "success: every extra pack is closed", r[0] is True, "extra packs are left out")
            cx.ob(R, k, "success: extra packs are closed", bool(ex), "the extra packs are not finished")
    cx.ob(R, k, "paths", n >= 3, "only %d" % n)


def r_errors(cx):
    R = "errors"
    cx.rule(R, "in every function of the creation and of what it can run, on a path that returns a value, every call that reports an I/O or creation error (or a panic of a worker) is known to have succeeded, or its result is what is returned")
    _, ks = members(cx)
    more = cx.roots(lambda f: f["local"] and "::creator::" in f["path"] and not f.get("closure") and f["name"] != "fmt")
    ks = ks + [k for k in sorted(more) if k not in ks]
    errs.errflow(cx, R, ks, skip=lambda e: e.name.endswith("::available_parallelism"), floor=600)


def r_writes(cx):
    R = "whole-writes"
    cx.rule(R, "no function of a creation calls Write::write, which may write less than asked, except to implement Write::write itself by handing on the count")
    _, ks = members(cx)
    n = 0
    W = re.compile(r"(io::write::Write|Write)::(write|write_vectored)$")
    for k in ks:
        f = cx.lib.fns[k]
        sites = [b for b in f["blocks"] if b["t"]["k"] == "call" and W.search("%s::%s" % (b["t"]["f"].get("trait"), b["t"]["f"].get("m")))]
        n += 1
        if not sites:
            continue
        impl = (f.get("trait") or "").endswith("io::write::Write") and f.get("name") in ("write", "write_vectored")
        good = impl
        if impl:
            for t in oks(cx.traces(k)):
                ws = calls(t, W)
                good = good and len(ws) == 1 and contains(t.val, lambda x: x is ws[0].res)
        cx.ob(R, k, "count handed on", good, "a short write goes unnoticed")
    cx.ob(R, "crate", "functions", n >= 100, "")


BUF = re.compile(r"BufWriter|LineWriter|Encoder\b")


def r_flush(cx):
    R = "flushed"
    cx.rule(R, "every buffering writer made while creating (BufWriter, compression encoder) is finished (into_inner, finish) on every path that returns a value, and that is known to have succeeded")
    _, ks = members(cx)
    made = re.compile(r"(BufWriter.*::(new|with_capacity)|EncoderBuilder::build|Encoder.*::(new|new_stream|with_dictionary\w*))$")
    fin = re.compile(r"(::into_inner|::finish|::flush|::try_finish)$")
    n = 0
    E0 = Engine(cx.lib)
    for k in ks:
        f = cx.lib.fns[k]
        if f.get("closure"):
            continue
        # made here
        if any(b["t"]["k"] == "call" and made.search(rdef(b)) for b in f["blocks"]):
            for t in oks(cx.traces(k)):
                for e in calls(t, made):
                    if t.val is not None and contains(t.val, lambda x: x is e.res):
                        n += 1
                        cx.ob(R, k, "handed on", True)
                        continue
                    fs = [x for x in calls(t, fin) if grown_from(t, x.args[0], e.res)]
                    n += 1
                    ok_ = [x for x in fs if not errs.has_result(t.E, x.x["dty"]) or errs.settled(t.E, t.st, x.res, x.x["dty"], lambda v: contains(t.val, lambda y: y is v))]
                    cx.ob(R, k, "finished", bool(ok_), "%s is not finished on a path that returns %s" % (short(e.name), show(t.val)[:100]))
        # owned: self holds one and is consumed
        if f["argc"] >= 1 and f.get("name") and (f.get("selfd") or "").startswith(J) and not f.get("trait"):
            ty = E0.ty(f["locals"][1])
            while ty["k"] == "adt" and ty["d"] == "alloc::boxed::Box" and ty.get("a"):
                ty = E0.ty(ty["a"][0])
            if ty["k"] == "adt" and ty["d"] in cx.lib.adts:
                hold = [x[0] for x in cx.lib.adts[ty["d"]]["variants"][0]["fields"] if re.search(r"BufWriter<", x[1])]
                for h in hold:
                    for t in oks(cx.traces(k)):
                        n += 1
                        fs = [x for x in calls(t, fin) if grown_from(t, x.args[0], F(A[0], h))]
                        ok_ = [x for x in fs if errs.settled(t.E, t.st, x.res, x.x["dty"], lambda v: contains(t.val, lambda y: y is v))]
                        cx.ob(R, k, "owned writer finished", bool(ok_), "the buffered data may never be written on a path that returns %s" % show(t.val)[:100])
    cx.ob(R, "crate", "writers", n >= 4, "only %d" % n)


def base_has(v, x):
    return base_obj(v) is x


RULES = [("output", r_output), ("temporary", r_temp), ("content-file", content_path), ("order", r_order), ("errors", r_errors), ("whole-writes", r_writes), ("flushed", r_flush)]
