#!/usr/bin/env python3
"""Finishes and confirms a planted bug: plant.py ID [confirm].

Expects seeded/ID/{patch.diff,demo.cpp,meta.json}; the first line of demo.cpp
names the repository sources it needs ("// USES: SOLVER" or single files).
Writes demo.sh and standin.tgz (a copy of shim/), then confirms in /repo, which is put back:
demo passes unchanged, fails with the patch, the build and the stable tests still pass.
"""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds demo.cpp against the sources in the current directory (the repository) and runs it.
# The library the sources need is not installed; standin.tgz holds a small replacement.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
tar -xzf "$here/standin.tgz" -C "$work" || exit 3
cd "$work" || exit 3
flags="-std=c++17 -O1 -w -fopenmp -DSHOW_TIMER_INFORMATION -I$work/shim -I$repo/src -isystem /usr/include/eigen3"
list="$here/demo.cpp"
for s in USES; do list="$list $repo/src/$s"; done
for s in linalg spmd fe mesh space; do list="$list $work/shim/$s.cpp"; done
n=0
for s in $list; do n=$((n+1)); echo "$s $work/o$n.o"; done > jobs
xargs -P 8 -L 1 bash -c 'g++ '"$flags"' -c "$0" -o "$1" || exit 255' < jobs || exit 3
g++ -fopenmp "$work"/o*.o -o demo -lpthread -ldl || exit 3
mkdir run && cd run || exit 3
timeout 200 ../demo
'''
GROUPS = {"SOLVER": "components/*.cpp evolution/*.cpp solver/*.cpp mfemExtension/*.cpp math/*.cpp", "DRIVER": "driver/driver.cpp"}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare(i):
    d = os.path.join(V, "seeded", i)
    first = open(os.path.join(d, "demo.cpp")).readline()
    uses = " ".join(GROUPS.get(w, w) for w in first.split(":", 1)[1].split())
    # globs are expanded by the shell inside the loop, with the repository in front
    words = []
    for w in uses.split():
        if "*" in w:
            import glob
            words.append("$(cd \"$repo/src\" && ls %s)" % w)
        else:
            words.append(w)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("USES", " ".join(words)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    r = sh("tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -cf - shim | gzip -9n > %s/standin.tgz" % d, cwd=V)
    assert r.returncode == 0, r.stdout
    json.load(open(os.path.join(d, "meta.json")))


def confirm(i, unchanged=True):
    d = os.path.join(V, "seeded", i)
    if unchanged:
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout[-500:]
    r = sh("git apply %s/patch.diff" % d, cwd="/repo")
    if r.returncode != 0:
        return "patch does not apply: " + r.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode != 0:
            return "does not build " + b.stdout[-800:]
        out = tempfile.mktemp(suffix=".json")
        t = sh("bash /opt/vp/test.sh " + out)
        if t.returncode != 0:
            return "tests fail " + t.stdout[-800:]
        os.path.exists(out) and os.remove(out)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0:
            return "demo passes with the patch"
        if r.returncode == 3:
            return "demo does not build: " + r.stdout[-500:]
        msg = r.stdout.strip().splitlines()[-1:]
    finally:
        sh("git checkout -- .", cwd="/repo")
        sh("bash /opt/vp/build.sh")
    return "ok (%d: %s)" % (r.returncode, " ".join(msg)[:150])


for i in sys.argv[1:]:
    prepare(i)
    print(i, confirm(i), flush=True)
