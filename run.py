#!/usr/bin/env python3
"""run.py PROPERTY: decide one property on /repo's current working tree.
VERIF_SEED and VERIF_TIER (quick, thorough) steer it. Exit 0: held; 1: violated; 2: error of the check."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import common


def main():
    prop = sys.argv[1]
    if prop == "setup":
        common.Check("setup", "", 0).build("plain")
        return 0
    common.hints()
    if prop in ("C14", "C15", "C20", "C21"):
        import gencheck
        return getattr(gencheck, prop.lower())()
    import checks
    special = {"C10": checks.c10, "C11": checks.c11, "C12": checks.c12, "C17": checks.c17}
    if prop in special:
        return special[prop]()
    return checks.simple(prop)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except common.HarnessError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        sys.exit(2)
