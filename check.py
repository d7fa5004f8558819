#!/usr/bin/env python3
"""check.py ID: decide one property of properties.jsonl about /repo's current sources"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import framework
if __name__ == "__main__":
    sys.exit(framework.main(sys.argv[1]))
