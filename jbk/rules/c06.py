"""C06 — reading a damaged file answers: what damage can reach is never a panic, an out of file access or a wait without end."""
from .core import *
from .errs import ERRTY, RESULT, is_result
from .entries import evs
from . import c05, decode

LEVEL = "other"
FLOOR = 120
TECHNIQUE = ("effect analysis of the type-checked MIR (debug and release) of everything reachable from the reading API: no panic is decided by the failure of an access to the file, every cut out of "
             "the file is inside the file on every path that makes it, no subtraction on the file's size may underflow, what is parsed before its CRC is verified cannot panic, all the rest is parsed "
             "behind its CRC, and the failure of the background decoder is published and ends every wait")
ASSUMPTIONS = ["structures whose CRC-32C matches are those a writer wrote (the property leaves re-checksummed files out)", "the file does not shrink once it is opened",
               "the decompression libraries report damage as errors and do not panic", "memory can be allocated for the sizes verified structures give"]

# not the reading API: debug views, formatting, the creator
EXC = re.compile(r"graphex|serde|core::fmt::|creator::|cmd_utils|^jubako::bases::write|OutStream")
LIB = r"^(<)?jubako::"


def debug(cx):
    """the same tree as it is built with debug assertions and overflow checks"""
    if not hasattr(cx, "_dbg"):
        cx._dbg = Ctx(cx.prop, cx.tier, mode="debug")
    return cx._dbg


def merge(cx, d):
    cx.fns |= d.fns
    cx.inlined |= d.inlined
    cx.ntraces += d.ntraces
    d.ntraces = 0


def reading(d):
    """local functions which may run when the reading API is used, one key each"""
    bad = lambda f: EXC.search(f["path"]) or EXC.search(f.get("trait") or "")
    seen, todo = set(), list(d.roots(lambda f: re.search(r"^<?jubako::(reader|tools)::", f["path"]) and not bad(f)))
    while todo:
        k = todo.pop()
        f = d.fn(k)
        if k in seen or bad(f):
            continue
        seen.add(k)
        todo.extend(d.callees(f))
    r = {}
    for k in sorted(seen):
        if d.fn(k)["local"]:
            r.setdefault(d.fn(k)["path"], k)
    return r


def file_result(E, ty):
    return is_result(ty) and bool(ERRTY.search(E.ty(ty["a"][1])["s"])) and not re.search("SendError|PoisonError", E.ty(ty["a"][1])["s"])


def pack_option(E, ty):
    """Result<Option<pack or reader>>: None tells it is not there"""
    if not file_result(E, ty):
        return False
    o = E.ty(ty["a"][0])
    return o["k"] == "adt" and o["d"] == "core::option::Option" and bool(re.search(r"Reader|MayMissPack|Pack\b|ByteRegion", E.ty(o["a"][0])["s"]))


def in_memory(t, e):
    """a read of n bytes out of a slice which get_data gave for a size of n bytes"""
    if not re.search(r"Parser::read_\w+$", e.name) or not e.args:
        return False
    gets = [y for a in e.args for y in walk(a) if y.op in ("call", "pure") and str(y.a[0]).endswith("get_data")]
    return bool(gets)


def decided_by(t, v, pos):
    """the last thing learnt before the panic is discr(v) = pos"""
    d = mk("discr", v)
    b = t.bnd.get(d)
    if b is None or b[0] != pos or b[1] != pos:
        return False
    return True


def failures(t, f):
    """(name, value, outcome) of what may fail on trace t and did"""
    E = t.E
    for i in range(f["argc"]):
        ty = E.ty(f["locals"][1 + i])
        if file_result(E, ty):
            yield ("argument %d" % i, A[i], ty)
    for e in flat(t.effs):
        if e.kind == "call" and e.res is not None and e.x and e.x.get("dty") is not None:
            ty = e.x["dty"] if isinstance(e.x["dty"], dict) else E.ty(e.x["dty"])
            if file_result(E, ty) and not in_memory(t, e):
                yield (e.name, e.res, ty)


def last_learnt(t):
    r = []
    if t.bnd:
        r.append(list(t.bnd)[-1])
    if t.facts:
        r.append(list(t.facts)[-1])
    return r


def r_errors(cx):
    R = "no panic on errors"
    cx.rule(R, "in no function reachable from the reading API does a panic follow from the failure of an access to the file (an io or jubako error), or from a pack which is not there: it is given as a "
               "result")
    n = 0
    for d in (cx, debug(cx)):
        fs = reading(d)
        for p, k in fs.items():
            f = d.fn(k)
            try:
                ts = d.traces(k, stop=[LIB], paths=True)
            except Limit:
                continue
            m, bad = 0, []
            for t in ts:
                fl = list(failures(t, f))
                m += len(fl)
                if t.kind != "panic":
                    continue
                last = last_learnt(t)
                for name, v, ty in fl:
                    dv = mk("discr", v)
                    if any(x is dv for x in last) and t.E.decide(t.st, eq(dv, c(0))) is False:
                        bad.append("%s fails" % name)
                    if pack_option(t.E, ty):
                        o = mk("discr", t.E.payload(v, "Ok", "0"))
                        if any(x is o for x in last) and t.E.decide(t.st, eq(o, c(0))) is True:
                            bad.append("%s finds nothing" % name)
            n += m
            if m or bad:
                cx.ob(R, k, "what may fail, %s build" % d.mode, not bad, "it panics when %s" % "; ".join(sorted(set(bad))))
        merge(cx, d) if d is not cx else None
    cx.ob(R, "crate", "accesses which may fail", n >= 500, "only %d" % n)
    # the helper which panics on a missing pack is for the callers of the library
    for p, k in reading(cx).items():
        for b in cx.fn(k)["blocks"]:
            if re.search(r"MayMissPack.*::(unwrap|expect)$", c05.callee(b)):
                cx.ob(R, k, "missing packs", False, "%s panics when the pack is missing" % c05.callee(b))


SIZES = (0, 1, 3, 4, 5, 7, 60, 63, 64, 65, 100, 4095, 4096, 1 << 20)
FAR = (0, 1, 3, 4, 5, 59, 60, 61, 63, 64, 65, 96, 100, 4096, 1 << 20, 1 << 40)


def r_cuts(cx):
    R = "cuts"
    cx.rule(R, "whatever offset and size are asked, the readers only cut what is inside of their region (with the CRC which follows when it is to be verified), and never panic, in debug and in release builds")
    for d in (cx, debug(cx)):
        direct = c05.callers(d, r"Source::cut$")
        direct = [k for k in direct if not (d.fn(k).get("trait") or "").endswith("Source")]
        if not direct:
            raise Anchor("nobody cuts a source")
        own = {d.fn(k).get("selfd") for k in direct}
        # the methods of the type which the rest of the crate calls
        meths = set(direct)
        grow = True
        while grow:
            grow = False
            for f in d.lib.local_fns():
                if f.get("root") and f["key"] not in meths and f.get("selfd") in own and not f.get("trait") and f["argc"] >= 3 and \
                        any(b["t"]["k"] == "call" and any(c05.callee(b) == d.fn(m)["path"] or re.sub(r"::<[^>]*>", "", c05.callee(b)) == re.sub(r"::<[^>]*>", "", d.fn(m)["path"]) for m in meths)
                            for b in f["blocks"]):
                    meths.add(f["key"])
                    grow = True
        names = {d.fn(m)["path"]: m for m in meths}
        outer = set()
        for f in d.lib.local_fns():
            if f.get("root") and f["key"] not in meths:
                for b in f["blocks"]:
                    if c05.callee(b) in names:
                        outer.add(names[c05.callee(b)])
        if not outer:
            raise Anchor("the cuts are not used")
        n = 0
        for k in sorted(outer):
            f = d.fn(k)
            if not re.search(r"Reader", d.lib.fns[k].get("selfd") or ""):
                raise Anchor("%s cuts a source" % k)
            stops = ["Source::cut$", r"Parsable>?::parse$", "fmt::", "Backtrace", "Parser::", "Source::get_slice$", r"CheckReader::(parse_in|create_parser|get_slice)$", r"DataBlockParsable\w*>?::finalize"]
            rb, re_ = F(A[0], "region", "begin"), F(A[0], "region", "end")
            ts = d.traces(k, stop=stops, paths=True, asserts=True)
            bad, seen = set(), 0
            ns = [A[i] for i in range(1, f["argc"]) if scalar(d, f, i)]
            sized = type_size(ts)
            checks = [mk("discr", A[i]) for i in range(1, f["argc"]) if "BlockCheck" in Engine(d.lib).ty(f["locals"][1 + i])["s"]]
            for t in ts:
                conds_ = judged(t)
                for env in envs(checks, rb, re_, ns, sized):
                    if not conds_(env):
                        continue
                    total = env[re_] - env[rb]
                    if t.kind == "panic":
                        if not t_known(t, env):
                            if calls(t, c05.CUT):
                                continue    # what is done with the bytes cut
                            raise Anchor("%s: panic under %s" % (k, [show(x)[:80] for x in last_learnt(t)]))
                        bad.add("it panics on %s out of %d bytes" % (asked(env, ns), total))
                        continue
                    for e in flat(t.effs):
                        if e.kind == "assert" and e.args and "overflow" in e.name and d.mode == "debug":
                            # only what comes before the cut, which is the reader's own arithmetic
                            v = [evs(a, env) for a in e.args]
                            if None in v:
                                continue
                            r = v[0] + v[1] if "Add" in e.name else v[0] - v[1] if "Sub" in e.name else v[0] * v[1] if "Mul" in e.name else None
                            if r is not None and not 0 <= r < 1 << 64:
                                bad.add("its arithmetic overflows on %s out of %d bytes" % (asked(env, ns), total))
                        if e.kind == "call" and e.name.endswith("Source::cut"):
                            b, en = evs(fld(e.args[1], "begin"), env), evs(fld(e.args[1], "end"), env)
                            crc = c05.is_crc(d, t, e.args[2])
                            if crc is None:
                                x = env.get(mk("discr", e.args[2]))
                                crc = None if x is None else x == c05.crc(d)
                            if b is None or en is None or crc is None:
                                raise Anchor("%s cuts %s, %s" % (k, show(e.args[1])[:150], show(e.args[2])))
                            seen += 1
                            if not env[rb] <= b <= en or en + (4 if crc else 0) > env[re_]:
                                bad.add("it cuts [%d, %d)%s out of [%d, %d)" % (b, en, " and its CRC" if crc else "", env[rb], env[re_]))
            n += seen
            cx.ob(R, k, "inside of the region, %s build" % d.mode, not bad, "; ".join(sorted(bad)[:3]))
            cx.ob(R, k, "cuts, %s build" % d.mode, seen > 0, "it never cuts")
        merge(cx, d) if d is not cx else None


def scalar(d, f, i):
    ty = Engine(d.lib).ty(f["locals"][1 + i])
    return ty["k"] in ("int", "uint") or ty["k"] == "adt" and bool(re.search(r"(Offset|Size)$", ty["d"]))


def type_size(ts):
    r = set()
    for t in ts:
        for x in list(t.bnd) + list(t.facts) + [a for e in flat(t.effs) for a in e.args]:
            r |= {y for y in walk(x) if y.op == "const" and str(y.a[0]).endswith("SIZE")}
    return sorted(r, key=show)[:2]


def envs(checks, rb, re_, ns, sized):
    """small and large requests on small and large regions; none is so large that 64 bits overflow"""
    import itertools
    for begin in (0, 5, 1 << 30):
        for size in SIZES:
            near = sorted({max(0, size + z) for z in (-65, -64, -5, -4, -3, -1, 0, 1)} | set(FAR[:4]) | {1 << 20, 1 << 40})
            pools = []
            for i, _ in enumerate(ns):
                pools.append(near if i == 0 else None)
            for a in near:
                left = size - a
                second = sorted({max(0, left + z) for z in (-5, -4, -3, -1, 0, 1)} | {0, 1, 1 << 40})
                for b in (second if len(ns) > 1 or sized else (0,)):
                    env = {rb: begin, re_: begin + size}
                    vals = [a, b] + [0] * len(ns)
                    for x, v in zip(ns, vals):
                        env[x] = v
                        env[fld(x, "offset")] = v
                        env[fld(x, "size")] = b
                    for s in sized:
                        env[s] = b
                    for dv in itertools.product((0, 1), repeat=len(checks)):
                        e2 = dict(env)
                        e2.update(zip(checks, dv))
                        yield e2


def judged(t):
    bnds, facts = list(t.bnd.items()), list(t.facts.items())

    def go(env):
        for x, (lo, hi, ex) in bnds:
            v = evs(x, env)
            if v is None:
                continue
            if lo is not None and v < lo or hi is not None and hi < (1 << 63) and v > hi or v in (ex or ()):
                return False
        for x, v in facts:
            r = evs(x, env)
            if r is not None and bool(r) != bool(v):
                return False
        return True
    return go


def t_known(t, env):
    """all the path was decided by is known"""
    return all(evs(x, env) is not None for x in last_learnt(t))


def asked(env, ns):
    return " + ".join(str(env[x]) for x in ns)


def r_open(cx):
    R = "opening"
    cx.rule(R, "while what the file is is not known yet, no subtraction on its size goes below zero, whatever the size of the file and of the pack its header or tail declares, and nothing panics")
    n = 0
    for d in (debug(cx), cx):
        k = d.free("open_as_container_pack")
        rb, re_ = F(A[0], "region", "begin"), F(A[0], "region", "end")
        stops = [r"Reader::(cut|parse_block_at|parse_block_in|parse_block_unchecked_at|parse_data_block|create_stream|cut_check)$", "ContainerPack::new", "Backtrace", "fmt::"]
        ts = d.traces(k, stop=stops, paths=True, asserts=True, assume=[(le(rb, re_), True)])
        bad = set()
        for t in ts:
            if t.kind == "panic":
                bad.add("it panics (%s)" % ", ".join("%s" % show(x)[:100] for x in last_learnt(t)))
            for e in flat(t.effs):
                if e.kind == "assert" and "overflow-Sub" in e.name:
                    a, b = e.args
                    n += 1
                    if not (contains(a, lambda x: x is re_) or contains(b, lambda x: x is re_)):
                        continue
                    if implied(t, le(b, a)) is not True:
                        bad.add("%s - %s may be below zero" % (show(a)[:100], show(b)[:100]))
                if e.kind == "call" and e.name.endswith("Reader::create_stream") and d.mode == "release":
                    if implied(t, le(c(0), sub(sub(re_, rb), e.args[2]))) is not True:
                        bad.add("it reads %s bytes of a file which may be smaller" % show(e.args[2]))
                    n += 1
        cx.ob(R, k, "sizes, %s build" % d.mode, not bad, "; ".join(sorted(bad)[:3]))
        merge(cx, d) if d is not cx else None
    cx.ob(R, "crate", "subtractions", n >= 4, "only %d" % n)


def r_unverified(cx):
    R = "unverified"
    cx.rule(R, "a structure which is parsed before any CRC was verified is parsed without a panic whatever its bytes are, in debug and in release builds")
    m = 0
    for d in (cx, debug(cx)):
        tys = set()
        for f in d.lib.local_fns():
            for b in f["blocks"]:
                if re.search(r"Reader::parse_block_unchecked_at$", c05.callee(b)):
                    mm = re.search(r"parse_block_unchecked_at::<(.+)>$", b["t"]["f"].get("full", ""))
                    if mm and not re.search(r"^[A-Z]\w?$", mm.group(1)):
                        tys.add(mm.group(1))
        for ty in sorted(tys):
            ks = [k for k in d.keys(re.escape("<%s as jubako::bases::parsing::Parsable>::parse" % ty)) if d.fn(k).get("root")]
            if not ks:
                raise Anchor("parser of %s" % ty)
            k = ks[0]
            bad = set()
            for t in d.traces(k, stop=[r"Parser::\w+$", "Backtrace", "fmt::"], paths=True, asserts=True):
                if t.kind == "panic":
                    bad.add("it panics (%s)" % ", ".join(show(x)[:100] for x in last_learnt(t)))
                for e in flat(t.effs):
                    if e.kind == "assert":
                        if "overflow" in e.name and d.mode == "debug":
                            bad.add("%s of %s" % (e.name, [show(a)[:60] for a in e.args]))
            m += 1
            cx.ob(R, k, "on any bytes, %s build" % d.mode, not bad, "; ".join(sorted(bad)[:3]))
        # the verification itself
        for k in [d.free("assert_slice_crc")]:
            bad = set()
            for t in d.traces(k, stop=["Backtrace", "fmt::"], paths=True, assume=[(le(c(4), mk_len(A[0])), True)]):
                if t.kind == "panic":
                    bad.add("it panics (%s)" % ", ".join(show(x)[:100] for x in last_learnt(t)))
            cx.ob(R, k, "of any bytes, %s build" % d.mode, not bad, "; ".join(sorted(bad)[:3]))
        merge(cx, d) if d is not cx else None
    cx.rules[R] += " (%d structures)" % m


def r_sources(cx):
    R = "in the file"
    cx.rule(R, "a source asked for a region inside of it gives it without panic, in debug and in release builds")
    n = 0
    for d in (cx, debug(cx)):
        for meth in ("cut", "get_slice"):
            for k in d.roots(lambda f: f.get("name") == meth and (f.get("trait") or "").endswith("Source")):
                if re.search("SeekableDecoder", k):
                    continue
                rb, re_ = F(A[1], "begin"), F(A[1], "end")
                ts = d.traces(k, stop=["assert_slice_crc", "Backtrace", "fmt::"], paths=True)
                bad = set()
                for t in ts:
                    if t.kind != "panic":
                        continue
                    n += 1
                    lens = sorted({y for x in list(t.bnd) for y in walk(x) if y.op == "len" or y.op in ("call", "pure") and str(y.a[0]).endswith("::len")}, key=show)
                    for begin in (0, 5, 4096):
                        for size in (0, 1, 64, 5000):
                            for spare in (0, 4, 10):
                                for chk in (0, 1):
                                    if chk and spare < 4:
                                        continue
                                    env = {rb: begin, re_: begin + size, mk("discr", A[2]): c05.crc(d) if chk else 1 - c05.crc(d)}
                                    for x in lens:
                                        if base_obj(x.a[0]) is A[0] or contains(x, lambda y: y is A[0]):
                                            env[x] = begin + size + spare
                                    if judged(t)(env) and t_known(t, env):
                                        bad.add("it panics on [%d, %d) of %d bytes" % (begin, begin + size, begin + size + spare))
                cx.ob(R, k, "regions inside, %s build" % d.mode, not bad, "; ".join(sorted(bad)[:2]))
        merge(cx, d) if d is not cx else None


def r_shown(cx):
    R = "errors are shown"
    cx.rule(R, "formatting an error (what the user does with one) does not panic")
    for d in (cx, debug(cx)):
        ks = [k for k in d.keys(r"types::error::.* as core::fmt::(Display|Debug)>::fmt") if d.fn(k).get("root")]
        if not ks:
            raise Anchor("errors are not shown")
        for k in ks:
            ts = d.traces(k, stop=[r"core::fmt::", r"fmt::Formatter", r"^(<)?(std|alloc)::"], paths=True)
            bad = [t for t in ts if t.kind == "panic"]
            cx.ob(R, k, "shown, %s build" % d.mode, not bad, "; ".join(sorted({", ".join(show(x)[:100] for x in last_learnt(t)) for t in bad})[:3]))
        merge(cx, d) if d is not cx else None


RULES = [("no panic on errors", r_errors), ("errors are shown", r_shown), ("cuts", r_cuts), ("opening", r_open), ("unverified", r_unverified), ("in the file", r_sources),
         ("crc-source", c05.r_sources), ("block-cut", c05.r_blocks), ("check-use", c05.r_use)] + decode.RULES
