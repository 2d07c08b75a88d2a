#!/usr/bin/env python3
"""Re-runs a recorded counterexample on the natively compiled code: replay.py FILE"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
rec = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="verif-")
b, err = check.build_native(w, [rec["harness"]], None)
if b is None:
    print(err)
    sys.exit(2)
rc, out = check.native_run(b, rec["harness"], rec["tier"], rec["vars"], w)
print(out)
shutil.rmtree(w, ignore_errors=True)
sys.exit(rc)
