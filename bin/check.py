#!/usr/bin/env python3
"""bin/check.py Cxx: decide one property on /repo's working tree. Exit 0 held, 1 violated, 2 no verdict."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *


def main():
    prop = sys.argv[1]
    import proxy
    if prop in proxy.PROFILES:
        return proxy.check(prop)
    if prop in ("C13", "C14", "C15"):
        import store
        return store.check(prop)
    if prop in ("C11", "C12"):
        import life
        return life.check(prop)
    if prop in ("C07", "C08", "C19", "C22"):
        import wire
        return wire.check(prop)
    if prop == "C20":
        import meta
        return meta.check(prop)
    if prop in ("C18", "C21"):
        import e2e
        return e2e.check(prop)
    if prop == "C23":
        import residue
        return residue.check(prop)
    raise CheckError("no check for " + prop)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR:", e)
        rc = 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    cleanup()
    sys.exit(rc)
