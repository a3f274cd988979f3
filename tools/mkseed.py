#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < spec   (spec: OLD ===> NEW === needs === breaks === demo.cc)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, f = sys.argv[1:4]
parts = sys.stdin.read().split("\n=====\n")
edits, needs, breaks, demo = parts
d = V + "/seeded/" + i
os.makedirs(d, exist_ok=True)
t = "/tmp/mkseed"
subprocess.run("rm -rf /tmp/mkseed && git clone -q /repo /tmp/mkseed", shell=True, check=True)
for e in edits.split("\n-----\n"):
    fn = f
    if e.startswith("@@"):
        fn, e = e[2:].split("\n", 1)
    old, new = e.split("\n==>\n")
    s = open(t + "/" + fn).read()
    assert s.count(old) == 1, (i, s.count(old), old)
    open(t + "/" + fn, "w").write(s.replace(old, new))
p = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, text=True).stdout
open(d + "/patch.diff", "w").write(p)
import shutil
if demo.startswith("#!"):  # a script of its own: the command line tool, the Python scripts
    open(d + "/demo.sh", "w").write(demo)
    json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run("rm -rf /tmp/mkseed", shell=True)
    sys.exit(0)
shutil.copy(V + "/tools/bw.h", d + "/bw.h")
open(d + "/demo.cc", "w").write(demo)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken.  cwd: the repository, after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -w -DFDUMP_DEFINE -DRTP_DEFINE -DFPRINT_ERRORS -Iinclude -I_build/src "$d/demo.cc" _build/src/libh264nal.a -o "$t/demo" || exit 2
timeout 60 "$t/demo" 2>/dev/null
''')
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
subprocess.run("rm -rf /tmp/mkseed", shell=True)
