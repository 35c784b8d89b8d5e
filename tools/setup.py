#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check builds what it needs from /repo)."""
import os, shutil, sys
missing = [t for t in ("clang++", "cmake", "ninja") if not shutil.which(t)]
for d in ("build", "evidence"):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d), exist_ok=True)
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
