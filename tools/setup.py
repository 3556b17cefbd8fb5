#!/usr/bin/env python3
"""Checks that the tools the checks need are there (each check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ("cargo", "rustc", "z3", "cargo-kani", "python3") if shutil.which(t) is None]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
