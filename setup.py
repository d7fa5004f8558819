#!/usr/bin/env python3
"""Builds the analysers in engine/ (each check builds what is missing itself)."""
import os, sys, concurrent.futures
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
names = [f[:-4] for f in sorted(os.listdir(os.path.join(vbuild.VERIF, "engine"))) if f.endswith(".cpp")]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for p in ex.map(vbuild.tool, names): print(p)
