"""C07 — concurrent readers of one container always get exactly the stored bytes."""
from .core import *
from . import content, c13, decode, locate, locks, readers

LEVEL = "other"
FLOOR = 250
TECHNIQUE = ("value-flow analysis of MIR for the protocol of the shared buffer (what is written, published, waited for and sliced, on every path, under which lock) and for the caches, and a lock-order "
             "analysis of the whole call graph (locks, one-time initialisations and waits reachable while a guard is alive)")
ASSUMPTIONS = ["Mutex, RwLock, Condvar, OnceLock and rayon behave as documented", "Take<R>::read_to_end on a Vec never appends more than its limit and does not reallocate while that fits its capacity",
               "the compression crates decode what they encoded", "the file is not modified while it is read", "safe Rust has no data race: only the unsafe operations are judged"]

JUDGED = [(r"compression::create_sync_vec", r"from_raw_parts"), (r"SyncVecRd::slice", r"from_raw_parts"), (r"SeekableDecoder", r"from_raw_parts"),
          (r"SmallString|small_string", r"from_utf8_unchecked"), (r"FileSource", r"MmapOptions::map"), (r"ClusterBuilder", r"set_len"), (r"ValueStore", r"set_len")]


def r_unsafe(cx):
    locks.r_unsafe(cx, JUDGED)


def r_slots(cx):
    readers.r_index(cx, "caches")


RULES = decode.RULES + [("order of locks", locks.r_order), ("unsafe operations", r_unsafe)] + content.READER + \
    [r for r in c13.RULES if r[0] in ("view", "stream", "reader", "source", "region-cut", "conversion")] + \
    [("caches", r_slots), ("open", locate.r_new), ("may-miss", locate.r_maymiss)]
