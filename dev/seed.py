#!/usr/bin/env python3
"""dev/seed.py ID PROP FILE -- reads old\n====\nnew[\n====\nold2\n====\nnew2] from stdin; demo in /verif/seeded/ID/demo.cpp (or demo.sh).
Creates patch.diff/demo.sh/meta.json and confirms build, tests, demo on a scratch copy; runs PROP's check on it."""
import sys, os, subprocess, shutil, json, tempfile
sid, prop, fn = sys.argv[1:4]
meta_needs, meta_breaks = sys.argv[4:6]
S = "/verif/seeded/" + sid
os.makedirs(S, exist_ok=True)
parts = sys.stdin.read().rstrip("\n").split("\n====\n")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
p = "/repo/cmmcore/" + fn
src = open(p).read()
new = src
for o, n in zip(parts[0::2], parts[1::2]):
    if "@@" in o: o = o.replace("@@", "")
    assert new.count(o) == 1, ("count", new.count(o), o)
    new = new.replace(o, n)
if not os.path.exists(S + "/demo.sh"):
    shutil.copy("/verif/driver/prefix.h", S + "/prefix.h")
    extra = open(S + "/flags").read().strip() if os.path.exists(S + "/flags") else ""
    open(S + "/demo.sh", "w").write('''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++17 -stdlib=libc++ -O1 -w -include "$H/prefix.h" -I"$PWD" %s "$H/demo.cpp" -o "$T/demo" -pthread || exit 3
cd "$T" && timeout 120 ./demo
''' % extra)
json.dump({"property": prop, "needs": meta_needs, "what_it_breaks": meta_breaks}, open(S + "/meta.json", "w"), indent=1)
if not os.path.exists("/repo/_build/build.ninja"): print(sh("bash /opt/vp/build.sh").stdout[-300:])
r = sh("bash %s/demo.sh" % S, cwd="/repo"); print("demo clean rc", r.returncode, (r.stdout + r.stderr)[-600:])
ok = r.returncode == 0
try:
    open(p, "w").write(new)
    d = sh("git -C /repo diff").stdout
    open(S + "/patch.diff", "w").write(d)
    # lines removed must be original lines
    r = sh("bash %s/demo.sh" % S, cwd="/repo"); print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-600:])
    ok &= r.returncode not in (0, 3)
    r = sh("/tmp/rt.sh"if 0 else "bash /tmp/rt.sh"); print(r.stdout[-300:], r.stderr[-300:])
    ok &= "missing []" in r.stdout
    for c in [prop] + sys.argv[6:]:
        r = sh("python3 check.py " + c, cwd="/verif"); print("check", c, "rc", r.returncode, r.stdout[-700:], r.stderr[-300:])
finally:
    open(p, "w").write(src)
    sh("bash /opt/vp/build.sh")
# confirm blame of touched lines
import re
cur = None
for l in d.splitlines():
    m = re.match(r"@@ -(\d+)", l)
    if m: cur = int(m.group(1)); continue
    if cur is None or l.startswith("+"): continue
    if l.startswith("-"):
        b = sh("git -C /repo blame -s -L%d,%d %s" % (cur, cur, p)).stdout
        if not b.startswith("^1af7650"): print("NOT ORIGINAL LINE:", b.strip()); 
    cur += 1
print("VALID" if ok else "INVALID", sid)
