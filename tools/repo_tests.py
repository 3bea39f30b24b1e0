#!/usr/bin/env python3
"""Runs the repository's own gtest tests on the MFEM stand-in: python3 tools/repo_tests.py [regex]

Used to validate the stand-in and to try repairs; not part of any check.
Tests of whole cases ("Cases") are left out, they take hours.
"""
import collections
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

T = os.path.join(build.REPO, "test")


def main():
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
    srcs = [f for f in glob.glob(T + "/**/*.cpp", recursive=True) if not re.search(r"Cases|TestCase|/mfem/", f)]
    main_src = [f for f in srcs if "int main" in open(f, errors="replace").read()]
    flags = ("-I" + T, "-I" + os.path.join(T, "maxwell"), "-I" + os.path.join(build.REPO, "src", "maxwell"))
    jobs = [(s, flags) for s in srcs] + [(s, ()) for s in build.repo_sources(["SOLVER", "DRIVER", "rcs/*.cpp"])]
    jobs += [(os.path.join(build.SHIM, s), ()) for s in build.SHIM_SOURCES]
    os.makedirs(os.path.join(build.BUILD, "obj"), exist_ok=True)
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (s, _), f in [(j, ex.submit(build.compile_one, *j)) for j in jobs]:
            try:
                objs.append(f.result()[0])
            except build.BuildError as e:
                print("left out:", os.path.relpath(s, build.REPO), str(e).split("error:")[1].split("\n")[0] if "error:" in str(e) else "")
    exe = os.path.join(build.BUILD, "bin", "repo_tests")
    r = subprocess.run(["g++"] + objs + ["-o", exe, "-Wl,--allow-multiple-definition", "-lgtest"] + ([] if main_src else ["-lgtest_main"]) + build.LINK, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        return 2
    work = tempfile.mkdtemp(prefix="repo_tests")
    try:
        os.symlink(os.path.join(build.REPO, "testData"), os.path.join(work, "testData"))
        for d in ("test", "t"):
            os.makedirs(os.path.join(work, d), exist_ok=True)
        out = subprocess.run([exe, "--gtest_list_tests"], cwd=work, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True).stdout
        tests, suite = [], None
        for line in out.splitlines():
            if re.match(r"^\S+\.(\s|$)", line):
                suite = line.split()[0]
            elif line.startswith("  ") and suite:
                tests.append(suite + line.split()[0])
        tests = [t for t in tests if pat.search(t) and not re.search("Cases", t)]

        def run(t):
            # a copy of its own: some tests rewrite their meshes in place
            d = tempfile.mkdtemp(dir=work)
            shutil.copytree(os.path.join(build.REPO, "testData"), os.path.join(d, "testData"))
            try:
                r = subprocess.run([exe, "--gtest_filter=" + t], cwd=d, input="\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   timeout=120, env=dict(os.environ, OMP_NUM_THREADS="1"))
                return t, r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                return t, "timeout", ""
            finally:
                shutil.rmtree(d)
        c = collections.Counter()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for t, rc, o in ex.map(run, tests):
                c[rc] += 1
                if rc:
                    m = re.findall(r"(C\+\+ exception.*|Failure\n(?:.*\n){0,4})", o)
                    print(t, rc, (m[0] if m else o[-200:]).replace("\n", " | ")[:250])
        print(dict(c))
    finally:
        shutil.rmtree(work)
    return 0


sys.exit(main())
