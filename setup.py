#!/usr/bin/env python3
"""Checks that what the checks need is here (they build everything else themselves)."""
import shutil, sys
sys.dont_write_bytecode = True
import run
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing: sys.exit("missing: " + ", ".join(missing))
import os; os.makedirs(run.BUILD, exist_ok=True)
ok, log = run.toolchain_works()
print("toolchain works" if ok else log); sys.exit(0 if ok else 1)
