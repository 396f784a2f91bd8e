"""How each creator lays one pack out in its file (shared by C04, C12, C14)."""
from .core import *
from .wire import *
from .layout import *
from .stream import *

STOPS = ("OutStream>?::ser_write", "OutStream>?::ser_callable", "WritableTell>?::write$", "WritableTell>?::write \\[", "ClusterWriterProxy", "write_cluster")
CREATORS = {
    "Content": ("ContentPackCreator", "finalize", "ContentPackHeader"),
    "Directory": ("FinalizedDirectoryPackCreator", "write", "DirectoryPackHeader"),
    "Manifest": ("ManifestPackCreator", "finalize", "ManifestPackHeader"),
    "Container": ("ContainerPackCreator", "finalize", "ContainerPackHeader"),
}


class PackStream:
    """one success path of a creator, as positions in its file"""

    def __init__(self, cx, kind):
        self.cx, self.kind = cx, kind
        typ, name, self.header = CREATORS[kind]
        self.key = cx.m(typ, name)
        self.ts = oks(cx.traces(self.key, stop=STOPS))
        self.ss = [Stream(t) for t in self.ts]
        if not self.ss:
            raise Anchor("%s has no success path" % typ)


def only(s, what, msg):
    l = [x for x in s.log if x[0] == what]
    if not l:
        known = lambda v: isinstance(v, T) and v.op == "agg"
        raw = [x for x in s.log if isinstance(x[0], tuple) and x[0][0] == "bytes"]
        odd = [x for x in s.log if isinstance(x[0], tuple) and x[0][0] not in ("bytes", "obj")
               or isinstance(x[0], tuple) and x[0][0] == "obj" and not known(s.res(x[0][1]))]
        if len(raw) <= 1 and not odd and any(x[0] == "read" for x in s.log):
            # everything written is known (the only plain bytes are the mirrored header), and it is not among it
            raise Never("no %s is written in the pack (%s)" % (what, msg))
        raise Anchor("no %s is written (%s)" % (what, msg))
    return l


def hdr(s, what, msg):
    """(position, header value with positions resolved)"""
    l = only(s, what, msg)
    p, e = l[-1][1], l[-1][2]
    return p, s.res(e.args[1])


def objs(s, pred):
    return [x for x in s.log if isinstance(x[0], tuple) and x[0][0] == "obj" and pred(x[0][1])]


def is_check(v):
    """a CheckInfo value: Option<Hash> or CheckInfo aggregate"""
    if v.op == "agg" and v.a[1] in ("Some", "None"):
        return v
    if isagg(v, "CheckInfo"):
        return next(iter(x for _, x in agg_items(v)))
    return None


def body_root(effs):
    for b in effs:
        for y in [b] + list(flat([b])):
            zs = list(y.args or [])
            if isinstance(y.x, dict):
                zs += list((y.x.get("init") or {}).values())
            for z in zs:
                for x in walk(z):
                    if x.op == "carg":
                        return x
    return None


def inner_loops(its):
    """innermost write loops: [(loop effect, [(iteration, items)])]"""
    r = []
    for i in its:
        if i[0] == "loop":
            sub = [x for _, s in i[2] for x in inner_loops(s)]
            r += sub if sub else [(i[1], i[2])]
    return r


def seq_loop(le, it):
    """(sequence, position variable) of a loop `for x in seq` visiting every element in order; None when it is something else"""
    for lv, i0 in le.x["init"].items():
        if i0 is c(0) and it.next.get(lv) is add(lv, c(1)):
            return lv
    return None


def elem_of(v, lv):
    """the sequence term when v is idx(seq, lv), possibly projected"""
    for x in walk(v):
        if x.op == "idx" and x.a[1] is lv:
            return x.a[0]
    return None


def tail_ok(s, start):
    """the last thing written is the reverse of the 64 bytes read at the pack's start; None: shape not recognised"""
    w = s.log[-1]
    if not (isinstance(w[0], tuple) and w[0][0] == "bytes"):
        return None, "the last write is %s" % (w[0],)
    v = w[0][1]
    names = []
    x = v
    while x.op in ("hv",):
        names.append(x.a[1] if isinstance(x.a[1], str) else show(x))
        x = x.a[0]
    rd = [l for l in s.log if l[0] == "read"]
    if not rd and x.op == "repeat" and not [n for n in names if n.split("::")[-1] != "reverse"]:
        return False, "nothing is read in the tail buffer: it holds only %s" % show(v)
    if not rd or x.op != "repeat":
        return None, "the tail buffer is %s" % show(v)
    sh_ = show(v)
    if not w[3]:
        return False, "the tail is not written at the end of the file"
    if rd[-1][1] is not start:
        return False, "the tail is read at %s, the pack starts at %s" % (show(rd[-1][1]), show(start))
    if x.a[1] is not c(64):
        return False, "the tail has %s bytes instead of 64" % show(x.a[1])
    if sh_.count("!reverse") != 1:
        return False, "the header bytes are not mirrored: %s" % sh_
    return True, sh_


def check_pack(cx, rule, kind):
    ps = PackStream(cx, kind)
    for s in ps.ss:
        check_stream(cx, rule, ps, s)
    return ps


def check_stream(cx, rule, ps, s):
    kind, key = ps.kind, ps.key
    hp, h = hdr(s, "PackHeader", kind)
    kp, kh = hdr(s, ps.header, kind)
    start = hp
    cx.ob(rule, key, "%s: kind byte" % kind, isagg(fld(h, "magic"), None, kind), "the header announces %s" % show(fld(h, "magic")))
    cx.ob(rule, key, "%s: flags" % kind, fld(h, "flags") is c(0), "flags %s, they must be 0" % show(fld(h, "flags")))
    cx.ob(rule, key, "%s: version" % kind, fld(h, "major_version") is c(0) and fld(h, "minor_version") is c(2),
          "version %s.%s" % (show(fld(h, "major_version")), show(fld(h, "minor_version"))))
    cx.ob(rule, key, "%s: specific header after the pack header" % kind, kp is add(start, c(64)), "at %s, the pack starts at %s" % (show(kp), show(start)))
    cis = objs(s, lambda v: is_check(v) is not None)
    if not cis:
        raise Anchor("no check info written by %s" % kind)
    _, cp, ce, at_end = cis[-1]
    cv = is_check(ce.args[1])
    csize = 5 if isagg(cv, None, "None") else 37
    rel = sub(cp, start)
    cx.ob(rule, key, "%s: check_info_pos" % kind, fld(h, "check_info_pos") is rel,
          "announced %s, written at %s from the start" % (show(fld(h, "check_info_pos")), show(rel)))
    cx.ob(rule, key, "%s: pack size = check position + check block + tail" % kind, fld(h, "file_size") is add(rel, c(csize + 64)),
          "announced %s, expected %s" % (show(fld(h, "file_size")), show(add(rel, c(csize + 64)))))
    cx.ob(rule, key, "%s: check info at the end" % kind, at_end, "the check info is not appended")
    okt, msg = tail_ok(s, start)
    if okt is None:
        raise Anchor(msg)
    cx.ob(rule, key, "%s: mirrored tail" % kind, okt, msg)
    after = s.log[s.log.index(cis[-1]) + 1:]
    cx.ob(rule, key, "%s: nothing between check and tail" % kind, all(l[0] in ("read", "read-to-end") or l is s.log[-1] for l in after), "%s" % [l[0] for l in after])
    # headers written once, after everything they describe
    for n in ("PackHeader", ps.header):
        cx.ob(rule, key, "%s: %s written once" % (kind, n), len(s.find(n)) == 1, "written %d times" % len(s.find(n)))
    return start, h, kh


def check_table(cx, rule, key, inst, s, ptr, count, width, start, elem, bits=8):
    """the table at `ptr` is one block with an element per entry of a vector, in order, and `count` is its length"""
    tb = [l for l in s.log if isinstance(l[0], tuple) and l[0][0] == "OutStream::ser_callable" and sub(l[1], start) is ptr]
    if not tb:
        at = [show(sub(l[1], start)) for l in s.log if isinstance(l[0], tuple) and l[0][0] == "OutStream::ser_callable"]
        if not at:
            raise Anchor("%s: no table block" % inst)
        cx.ob(rule, key, "%s: table pointer" % inst, False, "announced at %s, the tables are at %s" % (show(ptr), at))
        return None
    e = tb[0][2]
    body = s.body.get(id(e), [])
    root = body_root(body)
    if root is None:
        raise Anchor("%s: the table writer is not understood" % inst)
    ls = inner_loops(items(body, root))
    vec = None
    n = 0
    for le, its in ls:
        for it, sub_ in its:
            if not sub_:
                continue
            n += 1
            lv = seq_loop(le, it)
            if lv is None:
                cx.ob(rule, key, "%s: visits every element in order" % inst, False, "the loop does not go from the first element by one")
                continue
            v0 = elem_of(sub_[0][1], lv) if isinstance(sub_[0][1], T) else None
            vec = vec or v0
            cx.ob(rule, key, "%s: one element each" % inst, len(sub_) == 1 and sub_[0][0] is c(width) and v0 is not None, "per element: %s" % [show(x[1]) for x in sub_ if isinstance(x[1], T)])
            en, val = plain(sub_[0][1])
            src = [x for x in walk(val) if x.op == "idx" and x.a[1] is lv]
            cx.ob(rule, key, "%s: element encoding" % inst, en == "le" and bool(src) and elem(val, src[0]), "encoded as %s %s" % (en, show(val)))
    if n == 0:
        raise Anchor("%s: the table is not written by a loop" % inst)
    ln = unconv(count, bits)
    cx.ob(rule, key, "%s: count" % inst, vec is not None and ln is mk_len(vec), "announced %s, table over %s" % (show(count), show(vec) if vec is not None else "?"))
    return vec


def packed_of(name):
    size, low, high, bits = PACKED[name]

    def f(val, src):
        lows = [x for x in walk(val) if x.op == "fld" and x.a[1] == low and contains(x, lambda y: y is src)]
        if not lows:
            return False
        obj = lows[0].a[0]
        return is_packed(val, F(obj, low), F(obj, high), bits, size)
    return f
