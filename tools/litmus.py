#!/usr/bin/env python3
"""Validates the explorer: on every program of some small shapes, partial-order
reduction and deviation bounding must find the outcomes of all interleavings."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import lib_build as b
w = tempfile.mkdtemp(prefix="verif-litmus-")
try:
    b.build_native(os.path.join(w, "src"), "litmus", os.path.join(w, "litmus"), tags="tuneparam")
    runs = [["-shape", "1,1", "-dev"], ["-shape", "2,1", "-dev"], ["-shape", "2,2", "-ops", "Wx Rx A+ S R B b L C go D sel"], ["-shape", "1,1,1"],
            ["-shape", "3,2", "-ops", "Wx Rx A+ S R L"], ["-shape", "2,1,1", "-ops", "Wx Rx A+ S R B b sel"],
            ["-shape", "2,2,1", "-ops", "Wx Rx A+ S R"], ["-shape", "2,2,2", "-ops", "A+ Rx Wx S"],
            ["-shape", "1,1,1,1", "-ops", "Wx Rx S R L go"], ["-shape", "2,1,1", "-ops", "Wx go R S"]]
    ps = [subprocess.Popen([os.path.join(w, "litmus")] + r) for r in runs]
    sys.exit(max([p.wait() for p in ps]))
finally:
    shutil.rmtree(w, ignore_errors=True)
