#!/usr/bin/env python3
"""Checks that the tools the checks need are there; checks build themselves."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/build", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
missing = [t for t in ("gcc", "g++", "clang", "clang++", "make", "python3") if not shutil.which(t)]
if missing: sys.exit("missing tools: " + ", ".join(missing))
print("ok")
