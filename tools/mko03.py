#!/usr/bin/env python3
"""regenerates spec/o03.json from the current tree; every difference is to be reviewed by reading the switch"""
import sys, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]; sys.dont_write_bytecode = True
import framework, O03
o = O03.run(framework.Ctx("O03", "quick"), True)
o["fall"] = sorted(set(o["fall"]))
json.dump(o, open(os.path.join(V, "spec", "o03.json"), "w"), indent=1, sort_keys=True)
