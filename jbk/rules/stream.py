"""Positions on one output stream along an abstract trace.

Replays the seek / tell / write effects of a trace on a single file and gives every write the symbolic
position it happens at.  `tell` results become names of positions, so that a value computed from a tell
can be compared with the place something is written at.
"""
from .core import *
from .layout import STRUCTS

SIZES = {n: s for n, (s, _) in STRUCTS.items()}
ST = re.compile(r"(OutStream::(ser_write|ser_callable|write_serializer|copy|tell)|Seek::(stream_position|seek|rewind)|Write::(write_all|flush)|Read::(read_exact|read_to_end)"
                r"|Hasher::update_reader|WritableTell::write\b.*|io::copy::copy|copy_with|::write_tail|::write_data)$")
CHECKINFO = "check_info"


def blk(v):
    """(structure name, block size) of a value serialised as a block"""
    if v.op == "agg":
        n = v.a[0].split("::")[-1]
        if n in SIZES:
            return n, SIZES[n] + 4
    return None, None


def on_carg(v):
    """a buffer handed to a closure by the callee it was passed to"""
    v0 = v
    while v.op in ("hv", "upd", "push", "fld"):
        v = v.a[0]
    return v.op == "carg" or (v.op == "lv" and "carg(" in show(v)) or (v.op == "sym" and False)


class Stream:
    def __init__(self, t, sinks=None):
        self.t = t
        self.alias = {}
        self.n = 0
        self.body = {}         # id of a ser_callable effect -> effects of its closure
        self.log = []          # (what, pos, effect, at_end)
        self.pos = sym("P0")
        self.end = None        # position of the end of the stream once writing was rewound
        self.at_end = True
        self.sinks = sinks
        self.run(t.effs)

    def fresh(self):
        self.n += 1
        return sym("P%d" % self.n)

    def res(self, v):
        """value with every tell replaced by the position it observed"""
        al = self.alias
        ps = set(al.values())
        return rebuild(v, lambda x: al.get(x, x) if x.op != "pl" or x.a[0] not in ps else x.a[0])

    def put(self, what, size, e):
        self.log.append((what, self.pos, e, self.at_end))
        self.pos = add(self.pos, c(size)) if isinstance(size, int) else self.fresh()
        if self.at_end:
            self.end = self.pos

    def is_stream(self, v):
        return v is not None and not on_carg(v) and (self.sinks is None or any(contains(v, lambda x: x is s) for s in self.sinks))

    def run(self, effs):
        call = None
        for e in effs:
            cw = [x for x in (flat([e]) if e.kind == "loop" else [e]) if x.kind == "call" and x.args and on_carg(x.args[0])]
            if cw:
                if call is not None:
                    self.body.setdefault(id(call), []).append(e)
                continue
            if e.kind == "call" and e.name.endswith("ser_callable"):
                call = e
            if e.kind == "loop":
                inner = [x for it in e.x["iters"] for x in flat(it.effs) if x.kind == "call" and x.args and ST.search(x.name) and any(self.is_stream(a) for a in x.args)]
                wr = [x for x in inner if not re.search(r"stream_position|::tell$|::flush$", x.name)]
                if inner:
                    self.loop(e, inner, wr)
                continue
            if e.kind != "call" or not e.args or not ST.search(e.name):
                continue
            n = ST.search(e.name).group(1)
            if not any(self.is_stream(a) for a in e.args):
                continue
            self.one(e, n)

    def loop(self, e, inner, wr):
        if not wr:
            return
        if any(re.search(r"Seek::(seek|rewind)$", x.name) for x in wr):
            self.log.append(("seek-loop", self.pos, e, self.at_end))
            self.at_end = False
            self.pos = self.fresh()
            return
        self.put("loop", None, e)

    def one(self, e, n):
        r = e.res
        okr = [fld(mk("var", r, "Ok"), "0")] if r is not None else []
        if n in ("Seek::stream_position", "OutStream::tell"):
            self.tell(r)
        elif n == "Seek::rewind":
            self.go(c(0))
        elif n == "Seek::seek":
            w = e.args[1]
            x = self.res(agg_get(w, "0")) if w.op == "agg" else None
            if w.op == "agg" and w.a[1] == "Start":
                d = sub(x, self.pos) if self.at_end and self.pos is not None else None
                if d is not None and d.op == "c" and d.a[0] >= 0:      # forward from the end: as if relative
                    self.pos = self.end = x
                else:
                    self.go(x)
            elif w.op == "agg" and w.a[1] == "End" and x is c(0):
                self.at_end = True
                self.pos = self.end if self.end is not None else self.fresh()
                self.end = self.pos
            elif w.op == "agg" and w.a[1] == "Current":
                self.pos = add(self.pos, x)
                if self.at_end:
                    self.end = self.pos
            else:
                self.at_end = False
                self.pos = self.fresh()
            self.tell(r)
        elif n == "OutStream::ser_write":
            b, s = blk(e.args[1])
            self.put(b or ("obj", e.args[1]), s, e)
        elif n == "Write::flush":
            pass
        elif n in ("Read::read_exact",):
            self.log.append(("read", self.pos, e, self.at_end))
            self.pos = self.fresh()
        elif n in ("Hasher::update_reader", "Read::read_to_end"):
            self.log.append(("read-to-end", self.pos, e, self.at_end))
            self.at_end = True
            self.pos = self.end if self.end is not None else self.fresh()
        elif n == "Write::write_all":
            self.put(("bytes", e.args[1]), None, e)
        else:
            self.put((n, e.args), None, e)

    def go(self, x):
        self.at_end = False
        self.pos = x

    def tell(self, r):
        if r is None:
            return
        for x in (r, mk("pl", r, "Ok", "0")):
            self.alias[x] = self.pos

    def find(self, what):
        return [l for l in self.log if l[0] == what]
