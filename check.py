#!/usr/bin/env python3
"""Decide one property: check.py <property>.  Exit 0: held; 1: VIOLATION."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib

COMPONENTS = {"D": "c_rodas", "R": "c_radau", "K": "c_rock4", "L": "c_rock4l", "I": "c_sdirkl",
              "S": "c_sympl", "M": "c_linalg", "G": "c_logger"}


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
    mod = __import__(COMPONENTS[prop[0]])
    ck = vlib.Check(prop)
    try:
        mod.run(ck)
        rc = ck.finish()
    except vlib.ModelError as e:
        print("ERROR of the check (no verdict): %s" % str(e)[-4000:])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.work.close()
    sys.exit(rc)


main()
