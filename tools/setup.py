#!/usr/bin/env python3
"""Sanity check of the tool chain; the checks build what they need themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
assert build.cxx(), "clang++ not found"
for d in ("build", "work", "evidence"):
    os.makedirs(os.path.join(build.VERIF, d), exist_ok=True)
print("compiler:", build.cxx())
