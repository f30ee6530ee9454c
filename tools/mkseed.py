#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT: store /repo's uncommitted diff as a planted bug (demo.py from stdin), test it, undo it."""
import json
import os
import subprocess
import sys

sid, pid, needs, what = sys.argv[1:5]
demo = sys.stdin.read()
out = os.path.join("/verif/seeded", sid)
os.makedirs(out, exist_ok=True)
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 REPO="$PWD"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export XDG_CACHE_HOME="$T/cache" DEMO_TMP="$T"
cd "$T"
/opt/venv/bin/python "$D/demo.py"
"""
PRE = '''import os
import subprocess

T = os.environ["DEMO_TMP"]


def crun(src, flags=()):
    """Compile and run a C program, return its output words."""
    with open(T + "/d.c", "w") as f:
        f.write(src)
    subprocess.run(["gcc", "-std=gnu99", "-w", *flags, T + "/d.c", "-o", T + "/d", "-lm"], check=True)
    return subprocess.run([T + "/d"], capture_output=True, text=True, check=True, timeout=60).stdout.split()


'''


def run_demo():
    r = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-250:].strip()


bad = False
try:
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    assert diff.strip(), "no change in /repo"
    open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
    open(out + "/demo.py", "w", encoding="utf-8").write(PRE + demo)
    open(out + "/demo.sh", "w", encoding="utf-8").write(DEMO)
    json.dump({"property": pid, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w", encoding="utf-8"), indent=1)
    rc, txt = run_demo()
    print(sid, "patched demo rc", rc, txt)
    bad = rc == 0
    c = subprocess.run(["/verif/run.sh", pid], cwd="/verif", capture_output=True, text=True)
    print("  check", pid, "rc", c.returncode, c.stdout[:400], c.stderr[-300:])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
rc, txt = run_demo()
print(sid, "clean demo rc", rc, txt if rc else "")
if bad or rc:
    print("!!! DEMO WRONG", sid)
    sys.exit(1)
