#!/usr/bin/env python3
"""regenerates spec/m09.json (which member is the capacity of which) from the current tree"""
import sys, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]; sys.dont_write_bytecode = True
import framework, M09
json.dump(M09.run(framework.Ctx("M09", "quick"), True), open(os.path.join(V, "spec", "m09.json"), "w"), indent=1, sort_keys=True)
