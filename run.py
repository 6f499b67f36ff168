#!/usr/bin/env python3-vt
"""run.py <property> quick|thorough|replay [file]"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONHASHSEED"] = "0"
if "VERIF_REEXEC" not in os.environ and os.environ.get("PYTHONHASHSEED_DONE") != "1":
    os.environ["PYTHONHASHSEED_DONE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild      # noqa: E402
import vcommon     # noqa: E402

if __name__ == "__main__":
    cid, what = sys.argv[1], sys.argv[2]
    try:
        rc = vcommon.replay(cid, sys.argv[3]) if what == "replay" else vcommon.main(cid, what)
    except vbuild.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
