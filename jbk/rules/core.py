"""Rule infrastructure: obligations, trace queries, evidence, verdicts."""
import json, os, re, sys, time, traceback
from .. import facts, engine
from ..engine import Engine, Eff, flat, match, Limit, mk_len, mk_slice
from ..term import *

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
EVID = os.environ.get("JBK_EVIDENCE", os.path.join(VERIF, "evidence"))
J = "jubako::"


class Anchor(Exception):
    pass


class Never(Anchor):
    """a function which cannot succeed any more: every path of it is an error or a panic"""


_CRATES = {}


def crates(mode="release"):
    if mode not in _CRATES:
        p = os.environ.get("JBK_PICKLE")
        if p:
            import pickle
            p = p + "." + mode
            if os.path.exists(p):
                _CRATES[mode] = pickle.load(open(p, "rb"))
            else:
                _CRATES[mode] = facts.load(mode, which=("lib", "bin"))
                pickle.dump(_CRATES[mode], open(p, "wb"))
        else:
            _CRATES[mode] = facts.load(mode, which=("lib", "bin"))
    return _CRATES[mode]


def F(t, *path):
    for p in path:
        t = fld(t, p)
    return t


A = [sym("$%d" % i) for i in range(10)]


class Ob:
    __slots__ = ("rule", "where", "inst", "ok", "msg", "span")

    def __init__(self, rule, where, inst, ok, msg, span):
        self.rule, self.where, self.inst, self.ok, self.msg, self.span = rule, where, inst, ok, msg, span

    def key(self):
        return "%s|%s|%s" % (self.rule, self.where, self.inst)


def _dicts(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


class Ctx:
    def __init__(self, prop, tier="quick", mode="release"):
        self.prop, self.tier, self.mode = prop, tier, mode
        self.lib, self.bin = crates(mode)
        self.obs = []
        self.rules = {}
        self.cache = {}
        self.fns = set()
        self.ntraces = 0
        self.inlined = set()

    # ---- anchors
    def keys(self, pat, crate=None):
        cr = crate or self.lib
        r = re.compile(pat)
        return [k for k, f in cr.fns.items() if f["local"] and r.search(k)]

    def key(self, pat, crate=None):
        ks = self.keys(pat, crate)
        if len(ks) > 1:
            # prefer the polymorphic / shortest body
            ks2 = [k for k in ks if self.fn(k, crate)["root"]] if any("root" in self.fn(k, crate) for k in ks) else ks
            ks = ks2 or ks
        if not ks:
            raise Anchor("no function matches %s" % pat)
        return sorted(ks, key=len)[0]

    def _index(self):
        if not hasattr(self, "_idx"):
            self._idx = {}
            for k, f in self.lib.fns.items():
                if f["local"] and f.get("root") and not f.get("closure"):
                    sd = f.get("selfd") or f.get("self") or ""
                    sd = sd.split("<")[0].split("::")[-1] if not sd.startswith("[") else sd
                    tr = (f.get("trait") or "").split("::")[-1]
                    self._idx.setdefault((sd, f.get("name")), []).append((tr, k))
        return self._idx

    def m(self, typ, name, trait="", arg=None):
        """method `name` of type `typ` (last path component), inherent or of a trait"""
        c = [k for tr, k in self._index().get((typ, name), []) if tr == trait and (arg is None or arg in k)]
        if not c:
            raise Anchor("%s%s::%s" % (typ, " as " + trait if trait else "", name))
        return sorted(c, key=len)[0]

    def free(self, name, mod=None):
        c = [k for k, f in self.lib.fns.items() if f["local"] and f.get("root") and not f.get("closure")
             and f["path"].split("::")[-1].split("<")[0] == name and not f.get("selfd") and not f.get("self") and (mod is None or mod in f["path"])]
        if not c:
            raise Anchor("fn %s" % name)
        return sorted(c, key=len)[0]

    def roots(self, pred):
        return [k for k, f in self.lib.fns.items() if f["local"] and f.get("root") and pred(f)]

    def fn(self, key, crate=None):
        return (crate or self.lib).fns[key]

    def fields(self, adt, tyre, variant=0):
        """names of the fields of a local type (last path component) whose type matches"""
        c = [a for k, a in self.lib.adts.items() if a.get("local") and k.split("::")[-1] == adt]
        if not c:
            raise Anchor("type %s" % adt)
        r = re.compile(tyre)
        return [f[0] for f in c[0]["variants"][variant]["fields"] if r.search(f[1])]

    def field(self, adt, tyre, variant=0):
        f = self.fields(adt, tyre, variant)
        if len(f) != 1:
            raise Anchor("field of type /%s/ in %s: %s" % (tyre, adt, f))
        return f[0]

    def path(self, key, crate=None):
        return self.fn(key, crate)["path"]

    def traces(self, key, stop=(), crate=None, names=True, assume=(), **kw):
        """abstract traces of a function; `assume`: [(condition term, truth)] on its inputs"""
        ck = (key, tuple(stop), tuple(assume), crate is self.bin, tuple(sorted(kw.items(), key=str)) if "models" not in kw else id(kw["models"]))
        if ck in self.cache:
            return self.cache[ck]
        cr = crate or self.lib
        E = Engine(cr, stop=stop, **kw)
        f = cr.fns[key]
        st = engine.St()
        for cond, truth in assume:
            if E.assume(st, cond, truth) is False:
                raise Limit("contradictory assumption")
        ts = E.analyse(key, st=st, names=["$%d" % i for i in range(f["argc"])])
        for t in ts:
            t.E = E
        self.fns.add(key)
        self.inlined |= E.analysed
        self.ntraces += len(ts)
        self.cache[ck] = ts
        return ts

    # ---- call graph
    def callees(self, f):
        """keys of the local functions a body may run: resolved calls, every implementation of a trait method it
        cannot resolve, the closures it makes and the functions it takes as values"""
        lib = self.lib
        if "_callees" in f:
            return f["_callees"]
        r = set()

        def by_path(p):
            ks = lib.by_path.get(p, [])
            rt = [k for k in ks if lib.fns[k].get("root")]
            r.update(rt or ks[:1])
        ti = self._traits()
        for b in f["blocks"]:
            if b["t"]["k"] == "call":
                c_ = b["t"]["f"]
                k = c_.get("key")
                if k in lib.fns:
                    if lib.fns[k]["local"]:
                        by_path(lib.fns[k]["path"])
                    elif k not in r:
                        r.add(k)
                elif c_.get("trait") and c_.get("m"):
                    r.update(ti.get((c_["trait"], c_["m"]), ()))
            for d in _dicts(b):
                if "fn" in d and isinstance(d["fn"], str):
                    by_path(d["fn"])
        pre = f["path"] + "::{closure"
        r.update(k for k in self._closures().get(f["path"], ()))
        f["_callees"] = r
        return r

    def _traits(self):
        if not hasattr(self, "_tr"):
            self._tr = {}
            for k, f in self.lib.fns.items():
                if f["local"] and f.get("root") and f.get("trait") and f.get("name"):
                    self._tr.setdefault((f["trait"], f["name"]), []).append(k)
                elif f["local"] and f.get("root") and f.get("name") and not f.get("selfd"):
                    # default body of a trait method
                    tr = f["path"].rsplit("::", 1)[0]
                    self._tr.setdefault((tr, f["name"]), []).append(k)
        return self._tr

    def _closures(self):
        if not hasattr(self, "_cl"):
            self._cl = {}
            for k, f in self.lib.fns.items():
                if f.get("closure") and f["local"]:
                    self._cl.setdefault(f["path"].rsplit("::{closure", 1)[0], []).append(k)
        return self._cl

    def reach(self, keys, without=()):
        """functions that may run when one of `keys` is called"""
        seen, todo = set(), list(keys)
        while todo:
            k = todo.pop()
            if k in seen or k in without:
                continue
            seen.add(k)
            todo.extend(self.callees(self.lib.fns[k]))
        return seen

    # ---- obligations
    def ob(self, rule, where, inst, ok, msg="", span=None):
        if msg and NOTHING in msg:
            if not ok:
                raise Anchor("%s: %s: %s" % (where, inst, msg.replace(NOTHING, "nothing")))
            msg = msg.replace(NOTHING, "nothing")
        if where in self.lib.fns:
            span = span or self.lib.fns[where]["span"]
            where = self.lib.fns[where]["path"]
        elif where in self.bin.fns:
            span = span or self.bin.fns[where]["span"]
            where = self.bin.fns[where]["path"]
        self.obs.append(Ob(rule, where, inst, bool(ok), msg, span))
        return bool(ok)

    def rule(self, name, text):
        self.rules[name] = text


# ---- trace helpers ---------------------------------------------------------------------
def is_err(t):
    return t.kind == "ret" and t.val is not None and t.val.op == "agg" and t.val.a[1] in ("Err",)


def oks(ts):
    """traces that may return a success value"""
    r = [t for t in ts if t.kind == "ret" and not is_err(t)]
    if not r and any(is_err(t) for t in ts) and all(t.kind in ("ret", "panic") for t in ts):
        raise Never("it cannot succeed: every path is an error (%s)" % show(ts[0].val)[:160] if ts[0].val is not None else "it cannot succeed")
    if not r and ts:
        raise Anchor("no path succeeds (%s)" % ", ".join(sorted({str(t.why or t.kind) for t in ts}))[:150])
    return r


def errs(ts):
    return [t for t in ts if is_err(t)]


def okval(t):
    """payload of Ok/Some, or the value itself"""
    v = t.val
    if v.op == "agg" and v.a[1] in ("Ok", "Some"):
        return agg_get(v, "0") if agg_get(v, "0") is not None else v
    if v.op == "call":                      # what a call gives, handed on as it is
        for e in flat(t.effs):
            if e.kind == "call" and e.res is v and isinstance(e.x, dict) and e.x.get("dty") is not None:
                ty = e.x["dty"]
                ty = ty if isinstance(ty, dict) else t.E.ty(ty)
                if ty.get("k") == "adt" and str(ty.get("d", "")).endswith("result::Result"):
                    return mk("pl", v, "Ok", "0")
                break
    return v


def isagg(v, name=None, variant=None):
    return (v is not None and v.op == "agg" and (name is None or v.a[0] == name or v.a[0].endswith("::" + name))
            and (variant is None or v.a[1] == variant))


def aggs(v, name):
    """all aggregates of a type inside a term"""
    return [x for x in walk(v) if isagg(x, name)]


def implied(t, cond):
    return t.E.decide(t.st, cond)


def under(t, v):
    """resolve min/max in v by what the trace knows"""
    def f(x):
        if x.op in ("min", "max"):
            a, b = x.a
            d = t.E.decide(t.st, le(a, b))
            if d is None:
                d2 = t.E.decide(t.st, le(b, a))
                d = None if d2 is None else not d2
            if d is not None:
                return (a if d else b) if x.op == "min" else (b if d else a)
        return x
    return rebuild(v, f)


def teq(t, a, b):
    if a is None or b is None:
        return False
    if a is b:
        return True
    a2, b2 = under(t, a), under(t, b)
    if a2 is b2:
        return True
    if t.E.decide(t.st, eq(a2, b2)):
        return True
    return False


def base_obj(v):
    """strip versioning / projections of mutation: the object identity"""
    while v is not None and v.op in ("hv", "upd", "push"):
        v = v.a[0]
    return v


RESTRICT = re.compile(r"^it:(take|skip|filter|step_by|take_while|skip_while|map_while|filter_map|chunks|windows)$")


def restricted(t, le_, seq):
    """the loop is over an iterator which leaves elements of `seq` out"""
    for v in list(le_.x["init"].values()) + list(le_.x.get("whole", {}).values()):
        if not contains(v, lambda y: y is seq):
            continue
        for y in walk(v):
            if isagg(y) and y.a[0] and RESTRICT.match(y.a[0]) and contains(y, lambda z: z is seq):
                return True
            if y.op == "slice" and y.a[0] is seq and not (y.a[1] is c(0) and t.E.decide(t.st, eq(y.a[2], mk_len(seq))) is True):
                # (another loop may go through the other part)
                return not any(o is not le_ and any(contains(i, lambda z: z.op == "slice" and z.a[0] is seq) for i in list(o.x["init"].values()) + list(o.x.get("whole", {}).values()))
                               for o in flat_loops(t.effs))
    return False


def visit(t, le_, seq, origin=None):
    """how the loop goes through the sequence `seq`: (complete, reversed, element at an iteration) or None when not understood.
    complete: True when, leaving the loop on trace t because it is exhausted, every element was visited; False when elements are left out"""
    its = le_.x["iters"]
    if restricted(t, le_, seq):
        return False, False, lambda it: next((y for x in terms(it) for y in walk(x) if y.op == "idx" and y.a[0] is seq), mk("elem", seq))
    for lv, i0 in le_.x["init"].items():
        st = [sub(it.next.get(lv, lv), lv) for it in its]
        ix = {y.a[1] for x in [x for it in its for x in terms(it)] + carried(le_, origin) for y in walk(x) if y.op == "idx" and y.a[0] is seq and contains(y.a[1], lambda z: z is lv)}
        if st and all(s is c(1) for s in st) and ix:
            back = sub(sub(mk_len(seq), lv), c(1))
            if lv not in ix and ix == {back} and i0 is c(0):
                done = t.E.decide(t.st, le(mk_len(seq), lv))
                return None if done is None else (done is True, True, lambda it: mk("idx", seq, back))
            done = t.E.decide(t.st, le(mk_len(seq), lv))
            if i0 is not c(0):
                return (False, False, lambda it: mk("idx", seq, lv)) if i0.op == "c" else None
            if done is True:
                return True, False, lambda it: mk("idx", seq, lv)
            if t.E.decide(t.st, lt(lv, mk_len(seq))) is True:
                return False, False, lambda it: mk("idx", seq, lv)
            return None
        if i0.op == "call" and re.search(r"Iterator::(skip|take|step_by|skip_while|take_while|nth)$", i0.a[0]) and contains(i0.a[1][0], lambda y: y is seq):
            return False, False, lambda it: mk("elem", lv)
        src = [x for x in walk(i0) if isagg(x) and x.a[0] in ("it:seq", "it:rev") and (fld(x, "src") is seq or contains(fld(x, "src"), lambda y: y is seq))]
        if src and any(RESTRICT.match(x.a[0]) for x in walk(i0) if isagg(x)):
            return False, False, lambda it: mk("elem", lv)
    return None


def carried(le_, origin=None):
    """what a loop's carried values are states of"""
    return [origin(x) if origin else x for x in le_.x["init"].values()]


def terms(it):
    for e in flat(it.effs):
        for a in e.args or ():
            if isinstance(a, T):
                yield a
    for x in it.facts:
        yield x
    for x in it.bnd:
        yield x
    for x in it.next.values():
        yield x


def final(t, v):
    """final content of an object given by a symbolic root"""
    return t.mem.get(("S", v), v)


def grown_from(t, v, root):
    """v is (a later state of) something made from `root`, also through loops that carry it"""
    inits = {}
    for e in flat_loops(t.effs):
        inits.update(e.x["init"])
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y is root:
                return True
            if y.op == "lv" and y in inits and y not in seen:
                seen.add(y)
                todo.append(inits[y])
    return False


def flat_loops(effs):
    for e in effs:
        if e.kind == "loop":
            yield e
            for it in e.x["iters"]:
                yield from flat_loops(it.effs)


def calls(t, pat, deep=True):
    return list(t.calls(pat, deep))


def first_index(t, pred):
    for i, e in enumerate(flat(t.effs)):
        if pred(e):
            return i
    return None


UNDECIDED = ("anchor", "limit", "internal", "floor")


# ---- runner --------------------------------------------------------------------------------
def load_known(prop):
    """entries of known-findings.txt: `KNOWN property=<id> key=<key> :: <text>`"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def run(prop, module, tier, seed, level, floor, technique):
    t0 = time.time()
    cx = cx2 = None
    try:
        cx = Ctx(prop, tier)
        passes = [(cx, r) for r in module.RULES]
        if tier == "thorough":
            # the same rules on the MIR of the debug build (assertions and overflow checks on)
            cx2 = Ctx(prop, tier, mode="debug")
            passes += [(cx2, r) for r in module.RULES]
            cx2.obs, cx2.rules = cx.obs, cx.rules
        for c_, (name, fnc) in passes:
            n0 = len(cx.obs)
            try:
                fnc(c_)
            except Never as e:
                cx.ob(name, name, "a function the rule is stated on", False, str(e))
            except Anchor as e:
                cx.ob("anchor", name, str(e), False, "the construct the rule is stated on is gone: %s" % e)
            except Limit as e:
                cx.ob("limit", name, "analysis limit", False, "analysis limit in rule %s: %s" % (name, e))
            except Exception as e:
                tb = traceback.format_exc()
                sys.stderr.write(tb)
                cx.ob("internal", name, type(e).__name__, False, "rule %s could not interpret the code: %r" % (name, e))
            if len(cx.obs) == n0:
                cx.ob("floor", name, "no obligations", False, "rule %s matched nothing" % name)
    except facts.ExtractError as e:
        # the tree does not compile or the driver cannot run: no answer
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
    nob = len(cx.obs)
    if nob < floor:
        cx.ob("floor", "total", "obligation count", False, "only %d obligations, confirmed by hand: %d" % (nob, floor))
    # a rule that cannot interpret the code has decided nothing: reported, counted as
    # undischarged, but not a violation (no construct is known to break the property)
    inconc = [o for o in cx.obs if not o.ok and o.rule in UNDECIDED]
    known = load_known(prop)
    bad, kn = [], []
    seen = set()
    for o in cx.obs:
        if o.ok or o.rule in UNDECIDED:
            continue
        k = o.key()
        if k in seen:
            continue
        seen.add(k)
        if k in known:
            kn.append((o, known[k]))
        else:
            bad.append(o)
    os.makedirs(EVID, exist_ok=True)
    per = {}
    for o in cx.obs:
        d = per.setdefault(o.rule, [0, 0])
        d[0] += 1
        d[1] += o.ok
    samples = [{"rule": o.rule, "where": o.where, "instance": o.inst, "at": o.span, "ok": o.ok} for o in cx.obs[:: max(1, nob // 12)]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "%s. Obligations are decided on the abstract traces of the listed entry points, re-extracted from /repo's current MIR; "
                           "per rule: [obligations, discharged]." % technique,
            "obligations": nob, "discharged": sum(1 for o in cx.obs if o.ok),
            "checker_cmd": "python3 -m jbk.check %s %s" % (prop, tier),
            "trusted_base": ["rustc front end and MIR construction (nightly 1.101)", "jbk value-flow engine and its std models", "the frozen rule tables in jbk/rules"],
            "rules": {r: {"text": cx.rules.get(r, ""), "obligations": v[0], "discharged": v[1]} for r, v in per.items()},
            "functions_analysed": len(cx.fns), "functions_inlined": len(cx.inlined), "abstract_traces": cx.ntraces + (cx2.ntraces if cx2 else 0),
            "builds": ["release", "debug"] if cx2 else ["release"],
            "entry_points": sorted(cx.path(k) if k in cx.lib.fns else k for k in cx.fns)[:200],
            "mir_bodies_extracted": len(cx.lib.fns) + len(cx.bin.fns),
            "samples": samples,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    ev["coverage"]["undecided"] = [{"rule": o.rule, "where": o.where, "why": o.msg[:400]} for o in inconc]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o, txt in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    for k in known:
        if k not in seen:
            print("note: listed finding no longer reported: property=%s %s" % (prop, k))
    for o in inconc:
        print("INCONCLUSIVE property=%s rule=%s where=%s %s" % (prop, o.rule, o.where, o.msg[:300].replace("\n", " ")))
    if bad:
        rp = os.path.join(EVID, prop + ".violation.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write("%s\n  rule: %s — %s\n  at: %s (%s)\n  %s\n\n" % (o.key(), o.rule, cx.rules.get(o.rule, ""), o.where, o.span, o.msg))
        for o in bad[:20]:
            print("  [%s] %s (%s) %s: %s" % (o.rule, o.where, o.span, o.inst, o.msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d traces=%d" % (prop, nob, len(cx.fns), cx.ntraces))
    return 0


def narrow_ops(cx, key, bits=32, ops=("Add", "Mul", "Shl")):
    """sites of the function where unsigned arithmetic is done on less than `bits` bits, so that it may wrap"""
    fn = cx.lib.fns[key]
    E = Engine(cx.lib)
    r = []
    for b in fn["blocks"]:
        for s in b["s"]:
            if s[0] != "=" or s[2][0] != "bin" or s[2][1].replace("WithOverflow", "").replace("Unchecked", "") not in ops:
                continue
            t = E.ty(E.op_ty(fn, s[2][2]))
            if t["k"] == "uint" and t["bits"] < bits:
                r.append((s[3], t["s"], s[2][1]))
    return r


ALTER = re.compile(r"(^|::)(trim\w*|replac\w+|to_(ascii_)?(lower|upper)case|make_ascii_\w+|strip_\w+|r?split\w*|truncate|from_utf8_lossy|escape_\w+|encode_\w+|repeat|concat|join|push\w*|"
                   r"file_(name|stem)|parent|with_(extension|file_name)|canonicalize\w*|normalize\w*|rev|reverse|filter\w*|take|skip|char_indices|chars|lines|insert\w*|remove|pop|drain|retain)$")


def altered(x, src):
    """the call that changes the text `src` on its way to `x`, or None"""
    for y in walk(x):
        if y.op in ("call", "pure") and ALTER.search(y.a[0]) and not y.a[0].endswith("mem::replace") and contains(y, lambda z: z is src) and y is not src:
            return y.a[0].split("::")[-1]
        if y.op == "hv" and ALTER.search(y.a[1]) and contains(y.a[0], lambda z: z is src):
            return y.a[1].split("::")[-1]
        if y.op == "slice" and y is not src and y.a[0] is src:
            return "a part of it"
    return None
