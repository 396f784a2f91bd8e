"""C11 — an unavailable pack is reported as missing, and everything else still reads."""
from .core import *
from . import locate, c04

LEVEL = "other"
FLOOR = 150
TECHNIQUE = ("value-flow analysis of MIR: on every path of the locators, of opening a container and of get_pack / get_bytes the answer (unknown, missing with its description, "
             "found) is compared with the conditions of the path; loops over locators, locator tables and pack infos are shown to visit every element")
ASSUMPTIONS = ["std::path::Path::is_file, HashMap and OnceLock as documented", "the manifest and directory packs are available", "different packs have different uuids"]


def r_check(cx):
    c04.r_container(cx)


RULES = locate.READER + [("may-miss", locate.r_maymiss), ("check", r_check)]
