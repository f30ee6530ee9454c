#!/usr/bin/env python3
"""ed.py FILE OLD NEW: exact single replacement in /repo/FILE."""
import sys
f, old, new = sys.argv[1:4]
p = "/repo/" + f
s = open(p, encoding="utf-8").read()
assert s.count(old) == 1, (f, s.count(old))
open(p, "w", encoding="utf-8").write(s.replace(old, new))
