"""Property headers: the description of a column on disk, as the creator writes it and as the reader decodes it.

Both functions are taken as tables of abstract paths. A property description is then followed through them: the path of
the serialiser whose conditions agree with it gives bytes, the path of the parser whose conditions agree with those bytes
gives the column the reader will see. (Nothing is run: the conditions and the bytes are the terms the paths carry.)
"""
from .entries import *

STOREIDX, NAME = 0x2A, ("name",)


def sizes(cx):
    if not hasattr(cx, "_bs"):
        cx._bs = {n: i for n, (i, _) in variants(cx, "ByteSize", "bases").items()}
        if sorted(cx._bs.values()) != list(range(1, 9)):
            raise Anchor("ByteSize: variants %s" % cx._bs)
    return cx._bs


# ---- the writer --------------------------------------------------------------------------------
class Bad(Exception):
    pass


class Encoder:
    def __init__(self, cx):
        self.cx = cx
        self.vs = variants(cx, "Property", LAY + "::property")
        self.key = [x for x in cx.keys(r"Property<\w+> as .*Serializable>::serialize") if "layout::property" in x and cx.fn(x).get("root") and not cx.fn(x).get("closure")]
        if len(self.key) != 1:
            raise Anchor("layout Property::serialize")
        self.key = self.key[0]
        self.traces = {}
        for V, (i, _) in self.vs.items():
            self.traces[V] = oks(cx.traces(self.key, assume=[(eq(mk("discr", A[0]), c(i)), True)]))
        self.sizet = {}
        try:
            ks = [x for x in cx.keys(r"layout::property::Property::<\w+>::size") if cx.fn(x).get("root") and not cx.fn(x).get("closure")][0]
            for V, (i, _) in self.vs.items():
                self.sizet[V] = [t for t in cx.traces(ks, assume=[(eq(mk("discr", A[0]), c(i)), True)]) if t.kind == "ret"]
        except IndexError:
            raise Anchor("layout Property::size")

    def env(self, V, cfg):
        """cfg: {field: int | None | ("some", int) | tuple}"""
        e = {mk("discr", A[0]): self.vs[V][0]}
        opt = lambda v: e.__setitem__(mk("discr", v[0]), v[1])
        for f, x in cfg.items():
            v = mk("pl", A[0], V, f)
            ty = self.vs[V][1].get(f)
            if ty is None:
                raise Anchor("layout Property::%s has no field %s" % (V, f))
            if ty.startswith("core::option::Option<"):
                opt((v, 0 if x is None else 1))
                if x is None:
                    continue
                v = mk("pl", v, "Some", "0")
                ty = ty[len("core::option::Option<"):-1]
                if ty.startswith("("):
                    v = fld(v, "0")
                    ty = ty[1:].split(",")[0]
            if ty.endswith("::ByteSize"):
                e[mk("discr", v)] = x
            else:
                e[v] = x
        return e

    def encode(self, V, cfg):
        """[bytes tokens] : the ways a property cfg of variant V is written: list of [(width, value)]"""
        env = self.env(V, cfg)
        nm = [mk("pl", A[0], V, f) for f in ("name", "0")]
        for v in nm:
            env[mk_len(v)] = 5
        r = []
        for t in self.traces[V]:
            if not consistent(t.bnd, t.facts, env) or not agrees(t.facts, env):
                continue
            out = []
            snk = self.sink(t)
            for off, w, en, x in written(t, snk):
                if en in ("loop", "partial") or not isinstance(w, T):
                    raise Anchor("%s: how %s is written" % (self.key, V))
                n = evs(w, env)
                if n is None:
                    raise Anchor("%s: width of what is written: %s" % (self.key, show(w)))
                if x in nm:
                    out.append((n, NAME))
                    continue
                v = evs(x, env)
                if v is None:
                    if n == 1 and any(y.op == "locked" for y in walk(x)) and any(y.op == "pl" and y.a[2] in ("deported_info", "store_handle") for y in walk(x)):
                        v = STOREIDX
                    else:
                        raise Anchor("%s: value written: %s" % (self.key, show(x)))
                if en != "le" and n != 1:
                    raise Anchor("%s: %s bytes written as %s" % (self.key, n, en))
                out.append((n, v & ((1 << 8 * n) - 1), v))
            if out not in r:
                r.append(out)
        return r

    def sink(self, t):
        for e in flat(t.effs):
            if e.kind == "call" and e.args and match(e, WR):
                return base_buf(e.args[0])
        raise Anchor("%s: a path that writes nothing" % self.key)

    def size(self, V, cfg):
        env = self.env(V, cfg)
        r = set()
        for t in self.sizet[V]:
            if consistent(t.bnd, t.facts, env) and agrees(t.facts, env):
                r.add(evs(t.val, env))
        if len(r) != 1 or None in r:
            raise Anchor("layout Property::size of %s: %s" % (V, r))
        return r.pop()


def base_buf(v):
    while v.op in ("hv", "upd", "push"):
        v = v.a[0]
    return v


def agrees(facts, env):
    """no recorded condition is known to be false"""
    for f, val in (facts.items() if hasattr(facts, "items") else []):
        x = boolv(f, env)
        if x is not None and bool(x) != bool(val):
            return False
    return True


def boolv(f, env):
    if f in env:
        return env[f]
    if f.op == "not":
        a = boolv(f.a[0], env)
        return None if a is None else not a
    if f.op == "c":
        return bool(f.a[0])
    if f.op in ("eq0", "pos", "neg", "lt0", "le0"):
        a = evs(f.a[0], env)
        return None if a is None else {"eq0": a == 0, "pos": a > 0, "neg": a < 0, "lt0": a < 0, "le0": a <= 0}[f.op]
    if f.op in ("eq", "lt", "le", "ne") and len(f.a) == 2:
        a, b = evs(f.a[0], env), evs(f.a[1], env)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[f.op]
    return None


# ---- the reader --------------------------------------------------------------------------------
RD = re.compile(r"bases::parsing::Parser::(read_\w+|skip)$")


class Decoder:
    def __init__(self, cx):
        self.cx = cx
        self.bs = sizes(cx)
        self.key = cx.m("RawProperty", "parse", "Parsable")
        self.ts = [t for t in oks(cx.traces(self.key, stop=[r"BaseArray::parse$"])) if okval(t) is not None]
        if not self.ts:
            raise Anchor("%s: paths" % self.key)
        # by first byte
        self.by = {}
        for t in self.ts:
            rs = self.reads(t)
            if not rs or not rs[0].name.endswith("::read_u8"):
                raise Anchor("%s: the first thing read" % self.key)
            first = mk("pl", rs[0].res, "Ok", "0")
            for b in range(256):
                if consistent(t.bnd, t.facts, {first: b}) and agrees(t.facts, {first: b}):
                    self.by.setdefault(b, []).append((t, rs))

    def reads(self, t):
        r = []
        for e in flat(t.effs):
            if e.kind == "loop":
                raise Anchor("%s: reads in a loop" % self.key)
            if e.kind == "call" and (RD.search(e.name) or e.name.endswith("BaseArray::parse")):
                r.append(e)
        return r

    def width(self, e, env):
        n = e.name.rsplit("::", 1)[-1]
        m = re.match(r"read_[ui](\d+)$", n)
        if m:
            return int(m.group(1)) // 8
        if n in ("read_usized", "read_isized"):
            s = e.args[1]
            if isagg(s):
                return self.bs[s.a[1]]
            return evs(mk("discr", s), env)
        if n == "parse":
            return evs(e.args[0], env)
        if n in ("read_slice", "read_data", "skip"):
            return evs(e.args[1], env)
        return None

    def decode(self, toks):
        """the ways bytes `toks` are understood: list of (ok, decoded | why)"""
        r = []
        for t, rs in self.by.get(toks[0][1], []):
            env, left, why = {}, list(toks), None
            for e in rs:
                n = self.width(e, env)
                if n is None:
                    raise Anchor("%s: width of a %s" % (self.key, e.name))
                if n == 0:
                    continue
                if not left:
                    why = "%d more byte(s) are read" % n
                    break
                k = left.pop(0)
                if k[0] != n:
                    why = "%d byte(s) are read where %d are written" % (n, k[0])
                    break
                res = mk("pl", e.res, "Ok", "0")
                if k[1] is NAME:
                    continue
                v = k[1]
                if re.search(r"::read_i(sized|\d+)$", e.name) and v >> (8 * n - 1):
                    v -= 1 << 8 * n
                env[res] = v
                if not consistent(t.bnd, t.facts, env) or not agrees(t.facts, env):
                    why = 0
                    break
            if why == 0:
                continue
            if why is None and left:
                why = "%d byte(s) written are not read" % sum(x[0] for x in left)
            x = (False, why) if why else (True, self.conc(okval(t), env))
            if x not in r:
                r.append(x)
        return r

    def conc(self, v, env):
        if v in getattr(env, "st", ()):
            return env.st[v]
        if isagg(v):
            if v.a[1] in self.bs and "ByteSize" in str(v.a[0]):
                return self.bs[v.a[1]]
            it = agg_items(v)
            if v.a[0] == "[]":
                return tuple(self.conc(x, env) for _, x in it)
            if len(it) == 1 and it[0][0] == "0" and v.a[1] is None:
                return self.conc(it[0][1], env)
            return (v.a[1] if v.a[1] is not None else "", {f: self.conc(x, env) for f, x in it})
        x = evs(v, env)
        if x is not None:
            return x
        d = evs(mk("discr", v), env)
        if d is not None:
            return ("discr", d)
        return rebuild(v, lambda x: c(env[x]) if x in env else x)


def got_name(v):
    """does the name come from a slice that was read"""
    return isinstance(v, T) and any(y.op == "call" and RD.search(str(y.a[0])) and "read_slice" in y.a[0] for y in walk(v))


# ---- the property descriptions a creator can make ------------------------------------------------
def somes(x):
    return ("Some", {"0": x})


def cfgs():
    """(variant, cfg, size in the entry, what the reader must see, the frozen bytes)"""
    N = [(1, 5), (5, NAME)]
    none = ("None", {})
    for n in range(1, 9):
        dv = (0x8182838485868788 & ((1 << 8 * n) - 1), 1)
        for d in (None,) + dv:
            yield ("UnsignedInt", {"size": n, "default": d}, 0 if d is not None else n,
                   ("UnsignedInt", {"int_size": n, "default": none if d is None else somes(d)}),
                   [(1, 0x20 + n - 1 + (8 if d is not None else 0))] + ([(n, d)] if d is not None else []) + N)
        for d in (None, -(1 << 8 * n - 1), (1 << 8 * n - 1) - 1, -1):
            yield ("SignedInt", {"size": n, "default": d}, 0 if d is not None else n,
                   ("SignedInt", {"int_size": n, "default": none if d is None else somes(d)}),
                   [(1, 0x30 + n - 1 + (8 if d is not None else 0))] + ([(n, d & ((1 << 8 * n) - 1))] if d is not None else []) + N)
    for cs in range(1, 5):
        for ps in (1, 2):
            for d in (None, 1, (1 << 8 * ps) - 1):
                yield ("ContentAddress", {"content_id_size": cs, "pack_id_size": ps, "default": d}, cs + (0 if d is not None else ps),
                       ("ContentAddress", {"pack_id_size": ps, "content_id_size": cs, "default_pack_id": none if d is None else somes(d)}),
                       [(1, 0x10 + cs - 1 + 4 * (ps - 1) + (8 if d is not None else 0))] + ([(ps, d)] if d is not None else []) + N)
    for ls in (None, 1, 2, 3):
        for fx in (0, 1, 2, 30, 31):
            for ks in (None,) + tuple(range(1, 8)):
                yield ("Array", {"array_len_size": ls, "fixed_array_len": fx, "deported_info": ks}, (ls or 0) + fx + (ks or 0),
                       ("Array", {"array_len_size": none if ls is None else somes(ls), "fixed_array_len": fx,
                                  "deported_info": none if ks is None else somes(("", {"id_size": ks, "value_store_idx": STOREIDX})), "default": none}),
                       [(1, 0x50 + (ls or 0)), (1, fx + ((ks or 0) << 5))] + ([(1, STOREIDX)] if ks else []) + N)
    for ks in range(1, 8):
        yield ("IndirectArray", {"value_id_size": ks}, ks,
               ("Array", {"array_len_size": none, "fixed_array_len": 0, "deported_info": somes(("", {"id_size": ks, "value_store_idx": STOREIDX})), "default": none}),
               [(1, 0x50), (1, ks << 5), (1, STOREIDX)] + N)
    for n in range(1, 17):
        yield ("Padding", {"0": n}, n, ("Padding", {}), [(1, n - 1)])
    yield ("VariantId", {}, 1, ("VariantId", {}), [(1, 0x80)] + N)


def label(V, cfg):
    return "%s(%s)" % (V, ", ".join("%s=%s" % (k, v) for k, v in cfg.items()))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        return a[0] in (b[0], "") or b[0] == "" and a[1].keys() == b[1].keys() and all(same(a[1][k], b[1][k]) for k in a[1])
    return a == b


def strict(a, b):
    """a: decoded, b: expected"""
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict):
        if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict)):
            return False if a is not None and not isinstance(a, T) else None
        if b[0] and a[0] != b[0]:
            return False
        r = True
        for k, x in b[1].items():
            if k not in a[1]:
                return None
            s = strict(a[1][k], x)
            if s is False:
                return False
            r = None if s is None else r
        return r
    if isinstance(a, T):
        return None
    return a == b


def judge(cx, R, key, inst, dec, want, size, late):
    if not dec:
        cx.ob(R, key, inst, False, "no path of the reader accepts it")
        return
    for ok, d in dec:
        if not ok:
            cx.ob(R, key, inst, False, d)
            continue
        f = d[1] if isinstance(d, tuple) and isinstance(d[1], dict) else {}
        if not {"size", "name", "kind"} <= set(f):
            late.append("%s: fields of what is parsed" % key)
            continue
        s = strict(f["kind"], want)
        if s is None or isinstance(f["size"], T):
            late.append("%s: what is parsed for %s" % (key, inst))
            continue
        cx.ob(R, key, inst, s, "read back as %s" % brief(f["kind"]))
        cx.ob(R, key, inst + " width", f["size"] == size, "takes %s byte(s) in the entry; the reader takes %s" % (size, f["size"]))
        if want[0] != "Padding":
            if not got_name(f["name"]):
                late.append("%s: the name of what is parsed" % key)


def brief(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        return "%s{%s}" % (x[0], ", ".join("%s: %s" % (k, brief(v)) for k, v in x[1].items()))
    return show(x) if isinstance(x, T) else str(x)


def coders(cx):
    if not hasattr(cx, "_coders"):
        cx._coders = (Encoder(cx), Decoder(cx))
    return cx._coders


def r_headers(cx, R):
    cx.rule(R, "every column description the creator can write (each kind, width, constant or not, inline prefix, store) is decoded by the reader to the same kind, widths, constant, "
               "prefix and store, taking the same number of bytes in an entry, and nothing is left over or missing")
    E, D = coders(cx)
    late, n = [], 0
    for V, cfg, size, want, frozen in cfgs():
        ways = E.encode(V, cfg)
        inst = label(V, cfg)
        if not ways:
            cx.ob(R, E.key, inst, False, "no path of the creator writes it")
        for toks in ways:
            n += 1
            judge(cx, R, D.key, inst, D.decode(toks), want, size, late)
        cx.ob(R, E.key, inst + " size", E.size(V, cfg) == size, "counted for %s byte(s) in the entry, needs %s" % (E.size(V, cfg), size))
    if late:
        raise Anchor(late[0])
    if n < 200:
        raise Anchor("property headers: %d" % n)


def r_frozen(cx, R):
    cx.rule(R, "column descriptions are written as the frozen bytes of the format, and those bytes are decoded as the format says")
    E, D = coders(cx)
    late = []
    for V, cfg, size, want, frozen in cfgs():
        inst = label(V, cfg)
        for toks in E.encode(V, cfg):
            cx.ob(R, E.key, inst, [x[:2] for x in toks] == frozen, "written as %s; the format has %s" % (brief([x[:2] for x in toks]), brief(frozen)))
        judge(cx, R, D.key, inst + " frozen", D.decode(frozen), want, size, late)
    if late:
        raise Anchor(late[0])


# ---- reading a value out of an entry -------------------------------------------------------------
RRD = re.compile(r"bases::parsing::RandomParser::(read_\w+|create_parser)$")
BUILD = {"UnsignedInt": "IntProperty", "SignedInt": "SignedProperty", "ContentAddress": "ContentProperty", "Array": "ArrayProperty"}


def ent(off, n, signed=False):
    return mk("ent", c(off), c(n), c(1 if signed else 0))


class Env(dict):
    def __init__(self, other=None):
        super().__init__(other or {})
        self.st = dict(getattr(other, "st", {}))


class Values:
    """what builders read in an entry"""

    def __init__(self, cx):
        self.cx, self.bs = cx, sizes(cx)
        self.kv = variants(cx, "PropertyKind", "raw_layout")
        self.av = variants(cx, "AnyProperty", "builder::property")
        self.D = coders(cx)[1]
        self.fp, self.cr, self.kf, self.kc = {}, {}, {}, {}
        for ty in list(BUILD.values()) + ["AnyProperty"]:
            self.kf[ty] = cx.m(ty, "from_property", "FromLayoutProperty")
            self.kc[ty] = cx.m(ty, "create", "PropertyBuilderTrait")
            self.fp[ty] = oks(cx.traces(self.kf[ty]))
            self.cr[ty] = oks(cx.traces(self.kc[ty], stop=[r"BaseArray::parse$"]))

    def setenv(self, env, sub, v, x, enum=None):
        env.st[v] = x
        if isinstance(x, T):
            sub[v] = x
        elif isinstance(x, int):
            env[v] = x
            env[mk("discr", v)] = x
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
            if x[0] in ("None", "Some"):
                env[mk("discr", v)] = 0 if x[0] == "None" else 1
            elif enum and x[0] in enum:
                env[mk("discr", v)] = enum[x[0]][0]
            for f, y in x[1].items():
                self.setenv(env, sub, mk("pl", v, x[0], f) if x[0] else fld(v, f), y)
        else:
            raise Anchor("builder of a property: %s" % brief(x))

    def build(self, ty, want, off):
        """the builders made for a decoded property of kind `want` placed at `off`"""
        env, sub = Env(), {}
        fo, fk = self.offkind()
        self.setenv(env, sub, fld(A[0], fo), off)
        self.setenv(env, sub, fld(A[0], fk), want, self.kv)
        r = []
        for t in self.fp[ty]:
            if not consistent(t.bnd, t.facts, env) or not agrees(t.facts, env):
                continue
            v = okval(t)
            x = self.D.conc(v, env)
            if x not in r:
                r.append(x)
        return r

    def fields(self, name, mod):
        return [(f[0], f[1]) for f in adt(self.cx, name, mod)["variants"][0]["fields"]]

    def offkind(self):
        fs = self.fields("Property", "reader::directory_pack::layout")
        o = [f for f, t in fs if "Offset" in t]
        k = [f for f, t in fs if "PropertyKind" in t]
        if len(o) != 1 or len(k) != 1:
            raise Anchor("reader layout Property: fields")
        return o[0], k[0]

    def create(self, ty, b):
        """[(value, problem)] read by builder b (concrete)"""
        r = []
        env0, sub0 = Env(), {}
        self.setenv(env0, sub0, A[0], b, self.av)
        for t in self.cr[ty]:
            env, sub = Env(env0), dict(sub0)
            if not consistent(t.bnd, t.facts, env) or not agrees(t.facts, env):
                continue
            pos = {}
            bad = None
            for e in flat(t.effs):
                if e.kind == "loop":
                    raise Anchor("%s: reads in a loop" % self.kc[ty])
                if e.kind != "call":
                    continue
                m = RRD.search(e.name)
                res = mk("pl", e.res, "Ok", "0")
                if m:
                    off = evs(e.args[1], env)
                    if off is None or base_buf(unref(e.args[0])) is not A[1]:
                        raise Anchor("%s: where %s reads" % (self.kc[ty], m.group(1)))
                    if m.group(1) == "create_parser":
                        pos[res] = off
                        continue
                    n = self.width(e, 2, env)
                    sub[res] = ent(off, n, "read_i" in e.name)
                elif RD.search(e.name) or e.name.endswith("BaseArray::parse"):
                    isb = e.name.endswith("BaseArray::parse")
                    p = base_buf(unref(e.args[1 if isb else 0]))
                    if p not in pos:
                        if any(y.op == "call" and "get_data" in str(y.a[0]) for y in walk(p)):
                            continue
                        raise Anchor("%s: what is read" % self.kc[ty])
                    n = evs(e.args[0], env) if isb else self.width(e, 1, env)
                    if n is None:
                        raise Anchor("%s: how much is read" % self.kc[ty])
                    sub[res] = mk("base", c(pos[p]), c(n)) if isb else ent(pos[p], n, "read_i" in e.name)
                    pos[p] += n
            v = self.conc(rebuild(okval(t), lambda x: sub.get(x, x)), env)
            if v not in r:
                r.append(v)
        return r

    def conc(self, v, env):
        return self.D.conc(v, env)

    def width(self, e, i, env):
        m = re.search(r"::read_[ui](\d+)$", e.name)
        if m:
            return int(m.group(1)) // 8
        s = e.args[i]
        n = self.bs.get(s.a[1]) if isagg(s) else evs(mk("discr", s), env)
        if n is None:
            raise Anchor("%s: width" % e.name)
        return n


def isent(x, off, n, signed=False, bits=64):
    """x is the value stored at off on n bytes (casts which keep it accepted); None: not recognised"""
    r = isent_(x, off, n, signed, bits)
    if r is None and isinstance(x, T):
        # an expression of the stored value: it must be that value
        e = ent(off, n, signed)
        es = [y for y in walk(x) if y.op == "ent"]
        if es and all(y is e for y in es):
            for v in samples(signed, 8 * n):
                g = evs(x, {e: v})
                if g is not None and g != v:
                    return False
    return r


def isent_(x, off, n, signed=False, bits=64):
    while isinstance(x, T) and x.op in ("trunc", "sext"):
        if x.a[1].op not in ("trunc", "sext", "ent"):
            return None
        y = x
        while y.op in ("trunc", "sext"):
            y = y.a[1]
        w = evs(y.a[1], {}) * 8 if y.op == "ent" else 64
        if x.a[0] < w:
            return False
        # a signed value narrowed to enough bits keeps its value only through a sign extension
        if y.op == "ent" and y.a[2] is c(1) and x.op == "trunc" and x.a[0] < 64:
            pass
        x = x.a[1]
    if isinstance(x, T) and x.op == "ent":
        return x is ent(off, n, signed)
    if isinstance(x, int):
        return False
    return None


def subv(x, *path):
    for p in path:
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) and p in x[1]):
            return None
        x = x[1][p]
    return x


OFF = 40


def r_read(cx, R):
    cx.rule(R, "a builder reads each value where and as the creator put it: from the column's own offset, with the column's width and sign (or its constant), a content address as pack then "
               "content, an array as length, prefix, then key in the column's store")
    V = Values(cx)
    late, n = [], 0

    def bad3(s, what):
        if s is None:
            late.append(what)
        return s

    seen = set()
    for lv, cfg, size, want, _ in cfgs():
        kind = want[0]
        if kind not in BUILD:
            continue
        inst = brief(want)
        if inst in seen:
            continue
        seen.add(inst)
        for ty in (BUILD[kind], "AnyProperty"):
            bs = V.build(ty, want, OFF)
            if not bs:
                cx.ob(R, V.kf[ty], inst, False, "no builder")
            for b in bs:
                if not (isinstance(b, tuple) and b[0] == "Some"):
                    cx.ob(R, V.kf[ty], inst, False, "no builder is made for such a column")
                    continue
                b = b[1]["0"]
                # the store of the builder
                for x in leaves_of(b):
                    for y in walk(x):
                        if y.op == "call" and str(y.a[0]).endswith("get_value_store"):
                            s = V.D.conc(y.a[1][1], wantenv(V, want))
                            cx.ob(R, V.kf[ty], inst + " store", s == STOREIDX, "values come from store %s instead of the column's" % brief(s))
                b2 = mask(b)
                vals = V.create(ty, b2)
                if not vals:
                    cx.ob(R, V.kc[ty], inst, False, "nothing is read")
                for v in vals:
                    n += 1
                    check_value(cx, R, V, ty, kind, want, v, inst, late)
    if late:
        raise Anchor(late[0])
    if n < 200:
        raise Anchor("values read: %d" % n)


def wantenv(V, want):
    env, sub = Env(), {}
    fo, fk = V.offkind()
    V.setenv(env, sub, fld(A[0], fk), want, V.kv)
    return env


STORE = sym("STORE")


def leaves_of(b):
    if isinstance(b, T):
        yield b
    elif isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict):
        for x in b[1].values():
            yield from leaves_of(x)


def mask(b):
    """the store in a builder as STORE"""
    if isinstance(b, T):
        return STORE if any(y.op == "call" and str(y.a[0]).endswith("get_value_store") for y in walk(b)) else b
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict):
        return (b[0], {k: mask(x) for k, x in b[1].items()})
    return b


WRAP = {"UnsignedInt": {1: "U8", 2: "U16", 3: "U32", 4: "U32"}, "SignedInt": {1: "I8", 2: "I16", 3: "I32", 4: "I32"}}


def check_value(cx, R, V, ty, kind, want, v, inst, late):
    key = V.kc[ty]
    w = want[1]
    if ty == "AnyProperty":
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict) and list(v[1]) == ["0"]):
            late.append("%s: value made for %s" % (key, inst))
            return
        tag, v = v[0], v[1]["0"]
        good = {"UnsignedInt": "U", "SignedInt": "I", "ContentAddress": "Content", "Array": "Array"}[kind]
        if kind in ("UnsignedInt", "SignedInt"):
            m = re.match(good + r"(\d+)$", tag)
            cx.ob(R, key, inst + " kind", bool(m) and int(m.group(1)) >= 8 * w["int_size"], "given as %s" % tag)
            if not m:
                return
        else:
            cx.ob(R, key, inst + " kind", tag == good, "given as %s" % tag)
            if tag != good:
                return
    if kind in ("UnsignedInt", "SignedInt"):
        d = w["default"]
        if d[0] == "Some":
            s = None if isinstance(v, T) and v.op != "ent" else v == d[1]["0"] if isinstance(v, int) else False
            if s is None:
                late.append("%s: constant of %s" % (key, inst))
            else:
                cx.ob(R, key, inst, s, "read as %s" % brief(v))
        else:
            s = isent(v, OFF, w["int_size"], kind == "SignedInt")
            if s is None:
                late.append("%s: value of %s: %s" % (key, inst, brief(v)))
            else:
                cx.ob(R, key, inst, s, "read as %s" % brief(v))
    elif kind == "ContentAddress":
        p, q = subv(v, "pack_id"), subv(v, "content_id")
        d = w["default_pack_id"]
        at = OFF
        if d[0] == "Some":
            s = (p == d[1]["0"]) if isinstance(p, int) else (None if not isinstance(p, T) or p.op not in ("ent", "trunc") else False)
        else:
            s = isent(p, at, w["pack_id_size"])
            at += w["pack_id_size"]
        s2 = isent(q, at, w["content_id_size"])
        for s, what, got in ((s, "pack", p), (s2, "content", q)):
            if s is None:
                late.append("%s: %s of %s: %s" % (key, what, inst, brief(got)))
            else:
                cx.ob(R, key, inst + " " + what, s, "the %s id is read as %s" % (what, brief(got)))
    else:
        fs = dict((f, t) for f, t in V.fields("Array", "raw_value"))
        ls, fx, dep = w["array_len_size"], w["fixed_array_len"], w["deported_info"]
        at = OFF
        sz, base, bl, ext = (subv(v, f) for f in ("size", "base", "base_len", "extend"))
        if ls[0] == "None":
            s = None if sz is None else isinstance(sz, tuple) and sz[0] == "None"
            blw = {None: fx}
        else:
            n = ls[1]["0"]
            x = subv(sz, "0") if isinstance(sz, tuple) and sz[0] == "Some" else sz
            s = False if isinstance(sz, tuple) and sz[0] == "None" else isent(x, at, n)
            blw = {k: min(k, fx) for k in (0, 1, 2, 29, 30, 31, 32, 255, 256, 65535) if k < 1 << 8 * n}
            at += n
        obs = [(s, "length", sz)]
        obs.append(((base is mk("base", c(at), c(fx))) if isinstance(base, T) and base.op == "base" else (True if fx == 0 else None), "prefix", base))
        at += fx
        g = True
        for k, x in blw.items():
            y = evs(bl, {ent(OFF, ls[1]["0"]): k}) if isinstance(bl, T) else bl
            if y is None:
                g = None
                break
            if y != x:
                g = False
        obs.append((g, "prefix length", bl))
        if dep[0] == "None":
            obs.append((None if ext is None else isinstance(ext, tuple) and ext[0] == "None", "key", ext))
        else:
            if not (isinstance(ext, tuple) and ext[0] == "Some"):
                obs.append((None if ext is None or isinstance(ext, T) else False, "key", ext))
            else:
                obs.append((isent(subv(ext, "0", "value_id"), at, dep[1]["0"][1]["id_size"]), "key", subv(ext, "0", "value_id")))
                st = subv(ext, "0", "store")
                obs.append((None if not isinstance(st, T) else contains(st, lambda y: y is STORE) or None, "store", st))
        for s, what, got in obs:
            if s is None:
                late.append("%s: %s of %s: %s" % (key, what, inst, brief(got)))
            else:
                cx.ob(R, key, inst + " " + what, s, "the %s is read as %s" % (what, brief(got)))
