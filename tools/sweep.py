#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a scratch copy of the repository with the bug in it.

sweep.py [--all-checks] [ID ...]     the copies live in a new temporary directory that is removed at the end.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
work = tempfile.mkdtemp(prefix="sweep")
try:
    repo, verif = work + "/repo", work + "/verif"
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    shutil.copytree(V, verif, ignore=shutil.ignore_patterns("build", "evidence", "seeded", ".git"))
    os.makedirs(verif + "/evidence", exist_ok=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    have = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"], check=True)
        for p in have if "--all-checks" in sys.argv else [prop]:
            r = subprocess.run([sys.executable, "tools/check.py", p], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or p == prop:
                last = [l for l in r.stdout.splitlines() if l.startswith("facet")] or r.stdout.splitlines()[-1:]
                print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), " ".join(last)[:160], flush=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
finally:
    shutil.rmtree(work)
