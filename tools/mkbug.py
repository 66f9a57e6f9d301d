#!/usr/bin/env python3
"""mkbug.py: helper to write a seeded bug: reads a JSON-ish python file defining ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO(c++), FLAGS"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, "seeded", g["ID"]); os.makedirs(d, exist_ok=True)
edits = g.get("EDITS") or [(g["FILE"], g["OLD"], g["NEW"])]
try:
    for f, o, n in edits:
        p = "/repo/include/boost/random/" + f if not f.startswith("/") else f
        s = open(p).read(); assert s.count(o) == 1, (f, s.count(o), o); open(p, "w").write(s.replace(o, n))
    diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run("git -C /repo checkout -q -- .", shell=True)
open(d + "/demo.cpp", "w").write(g["DEMO"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository; builds demo.cpp beside this file in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -w -std=gnu++17 -O1 -I"$PWD/include" %s "$here/demo.cpp" %s -o "$tmp/demo"
cd "$tmp"; timeout 120 ./demo
''' % (g.get("FLAGS", ""), g.get("LIBS", "")))
json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
