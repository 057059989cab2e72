#!/usr/bin/env python3
"""authoring helper: mkseed.py ID PROPERTY FILE 'needs' 'breaks' <<< old\n====\nnew  (demo.cpp is written separately); creates seeded/ID"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds demo.cpp against the library of the tree and runs it; exit code 0 means the property holds
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
S=$root/lib/SDDS
MPI="-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
g++ -std=c++11 -O1 -w -fopenmp -I"$here" -I$root/_build -I$root/src -I/usr/include/eigen3 -I/usr/include/hdf5/serial -I$S $MPI "$here/demo.cpp" -o "$w/demo" $root/_build/libTEUFELlib.a \
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 $S/libSDDS1.a $S/libmdblib.a $S/libmdbcommon.a $S/liblzma.a -lpugixml -lmuparser -lz -ldl -lm || exit 3
cd "$w" && timeout 120 ./demo
'''
def make(sid, prop, edits, needs, breaks, demo=None, demo_sh=None):
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % (t, t), shell=True)
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old); open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output("git -C %s diff" % t, shell=True, text=True))
    shutil.rmtree(t)
    if demo is not None: open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
