#!/usr/bin/env python3
"""Builds the executor and the TLC override, and has every module of the specification parsed."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

engine.build()
work = tempfile.mkdtemp(prefix="qt-setup-")
try:
    d = engine.stage(work)
    for f in sorted(os.listdir(d)):
        if f.endswith(".tla"):
            r = engine.java(["tla2sany.SANY", f], d, 120)
            if r.returncode or "*** Errors" in r.stdout:
                print(r.stdout)
                sys.exit(1)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("ready")
