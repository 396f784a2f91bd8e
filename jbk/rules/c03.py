"""C03 — sorted stores follow the reader's order; lookup finds exactly what was written."""
from .core import *
from . import order, c02

LEVEL = "other"
FLOOR = 1500
TECHNIQUE = ("value-flow analysis of MIR: the comparisons of the writer and of the reader, the sort and the search are turned into terms and transition relations per path; agreement of the orders and "
             "the search's invariant (nothing equal outside the part left) are decided on them, together with the rules that values are read back as written (C02)")
ASSUMPTIONS = c02.ASSUMPTIONS + ["sort functions of std and rayon sort by the order they are given", "a comparator given by the caller which says it is ordered compares as the store was sorted"]


def shared(fn, name):
    return lambda cx: fn(cx, name)


RULES = [(n, shared(f, n)) for n, f in (
    ("search", order.r_find), ("entry against values", order.r_compare_entry), ("writer's order of values", order.r_writer_cmp), ("writer's order of entries", order.r_entry_cmp),
    ("sorting a store", order.r_sort), ("sorting a pack", order.r_order), ("reader's order of values", order.r_raw_cmp), ("reader's order of arrays", order.r_array_cmp),
    ("bytes of an array", order.r_array_iter), ("ranks of stored values", order.r_rank))] + list(c02.RULES)
