"""Runs the check of one property: python3 tools/check.py C01 [--replay FILE] [--facet NAME] ..."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402


def main():
    prop, rest = sys.argv[1], sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    name = build.harness_of(prop)
    try:
        exe = build.build([name])[name]
    except build.BuildError as e:
        print("ERROR: the check program does not build:", e)
        return 2
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    cmd = [exe, "--property", prop, "--tier", tier, "--seed", str(seed),
           "--evidence", os.path.join(build.VERIF, "evidence", prop + ".json"),
           "--replay-out", os.path.join(build.VERIF, "evidence", prop + ".replay")]
    env = dict(os.environ, VERIF_REPO_DIR=build.REPO, VERIF_DIR=build.VERIF, OMP_NUM_THREADS="1")
    sys.stdout.flush()
    r = subprocess.run(cmd + rest, env=env)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
