#!/usr/bin/env python3
"""run.py ID [ID...]: decides the given properties from /repo's current sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.setrecursionlimit(20000)
import importlib, check
rc = 0
for pid in sys.argv[1:]:
    mod = importlib.import_module(pid)
    r = check.main(pid, mod.run, mod.MIN)
    rc = max(rc, r)
sys.exit(rc)
