#!/usr/bin/env python3
"""Warms the Go build cache: builds every explorer once and throws it away."""
import shutil, sys
import check

rc = 0
for prop in ("C01", "C18", "C19", "C20"):
    r = check.Run(prop, "quick")
    try:
        r.build_all()
        for n in r.notes:
            print(n)
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
sys.exit(rc)
