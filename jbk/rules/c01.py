"""C01 — stored content reads back byte-identical at the address returned on insertion."""
from .core import *
from . import content, cluster, c05, c08, c13, c14, c16, locate, values, decode

LEVEL = "other"
FLOOR = 900
TECHNIQUE = ("value-flow analysis of MIR: the bytes of a content are followed from its reader into its cluster and its file, and from there through the tables, the cluster's tail and the decoder back to "
             "the region handed out; each step's term is compared with the term of the opposite step, on every path and for every kind of input, cluster and compression")
ASSUMPTIONS = ["the compression crates decode what they encoded", "std::io and std::fs as documented", "a file given as a content is not changed or shortened while it is stored",
               "an InputReader of the caller reads its `size` bytes after rewind", "fewer than 2^20 clusters"]


def shared(fn, name):
    return lambda cx: fn(cx, name)


RULES = content.READER + content.CREATOR + decode.RULES + [
    ("address", cluster.r_address), ("last-clusters", cluster.r_closed), ("raw cluster", cluster.r_raw), ("compressed cluster", cluster.r_compressed)] + \
    [r for r in c16.RULES] + [r for r in c08.RULES if r[0] in ("by-id", "worker", "dispatch", "threads", "finish", "late", "pack")] + \
    [r for r in c14.RULES if r[0] in ("structs", "packed", "envelope", "creators")] + \
    [r for r in c13.RULES if r[0] in ("view", "stream", "reader", "source", "region-cut", "conversion", "size")] + \
    [("bytes needed", shared(values.r_needed, "bytes needed")), ("table entries", c05.r_use), ("three-way", locate.r_three), ("container-pack", locate.r_container_pack)]
