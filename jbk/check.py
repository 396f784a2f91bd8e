"""python3 -m jbk.check <property> [quick|thorough]"""
import importlib, os, sys
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module("jbk.rules." + prop.lower())
    from .rules import core
    rc = core.run(prop, m, tier, int(os.environ.get("VERIF_SEED", "1")), m.LEVEL, m.FLOOR, m.TECHNIQUE)
    sys.exit(rc)


if __name__ == "__main__":
    main()
