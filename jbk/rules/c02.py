"""C02 — entries read back with exactly the property values they were written with."""
from .core import *
from . import entries as en, props, values, readers, c13, c14

LEVEL = "other"
FLOOR = 1200
TECHNIQUE = ("value-flow analysis of MIR: the term of every byte an entry, a property description, a layout, a value store and an index are written as is composed with the terms their readers "
             "compute, for every property configuration and every path; agreement of the two, coverage of every value by its column's width and the numbering of values are decided on the terms")
ASSUMPTIONS = ["std collections, iterators and rayon do what they document", "an entry type of the caller keeps the EntryTrait contract (the same value each time, under the name asked)",
               "fewer than 2^32 entries per store, offsets below 2^48"]


def shared(fn, name):
    return lambda cx: fn(cx, name)


RULES = [(n, shared(f, n)) for n, f in (
    ("values given", readers.r_given), ("values split", values.r_split), ("columns cover values", en.r_widths), ("constant columns", en.r_constant), ("columns sized from every entry", en.r_process), ("values accepted", en.r_accepted),
    ("entry size", en.r_size), ("variants padded", en.r_variants), ("layout described", en.r_layout), ("properties of an entry", en.r_keys), ("entries written", en.r_entry),
    ("property descriptions", props.r_headers), ("values read", props.r_read), ("bytes needed", values.r_needed), ("values added", values.r_added), ("value numbers", values.r_ids), ("key of a value", en.r_key), ("stores of a pack", values.r_pack),
    ("value stores on disk", values.r_tails), ("values resolved", values.r_resolve), ("integers parsed", values.r_parsers), ("places of properties", readers.r_places),
    ("layout read", readers.r_rlayout), ("layout written", readers.r_lwrite), ("values by name", readers.r_byname), ("entry windows", readers.r_window), ("indexes and stores", readers.r_index))] + \
    [("packed", c14.packed), ("directory pack", c14.structs), ("tables", c14.creators), ("view", c13.r_views), ("slice-parser", c13.r_parser), ("region-cut", c13.r_region)]
