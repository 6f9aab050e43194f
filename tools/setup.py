#!/usr/bin/env python3
"""Warms the build cache and checks that the monitors compile against /repo. The checks build for themselves."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
w = tempfile.mkdtemp(prefix="verif-setup-")
try:
    ok = all(check.build(b, w, False, "bpstub") for b in ("main", "lib", "main-race", "lib-race"))
    for b in ("main", "bpin"):
        check.build(b, w, True, "bpin")
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(0 if ok else 1)
