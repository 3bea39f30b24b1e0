"""Builds the check programs from /repo's working tree.

An object is reused only when the compiler command and the content of every
file it was compiled from are unchanged, so nothing depends on time stamps.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")

COMMON = ["-std=c++17", "-O2", "-w", "-fopenmp", "-DSHOW_TIMER_INFORMATION", "-D_GLIBCXX_ASSERTIONS",
          "-I" + SHIM, "-I" + HARNESS, "-I" + os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3"]
SHIM_SOURCES = ["linalg.cpp", "spmd.cpp", "fe.cpp", "mesh.cpp", "space.cpp"]
LINK = ["-fopenmp", "-lpthread", "-ldl"]
# sources of the repository that belong together; a harness names the groups and files it needs
GROUPS = {
    "SOLVER": ["components/*.cpp", "evolution/*.cpp", "solver/*.cpp", "mfemExtension/*.cpp", "math/*.cpp"],
    "DRIVER": ["driver/driver.cpp"],
}


class BuildError(Exception):
    pass


_hash_cache = {}


def file_hash(path):
    if path not in _hash_cache:
        try:
            with open(path, "rb") as f:
                _hash_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[path] = None
    return _hash_cache[path]


def parse_deps(path):
    text = open(path).read().replace("\\\n", " ")
    return sorted({os.path.abspath(p) for p in text.split(":", 1)[1].split()})


def compile_one(src, extra=()):
    # system headers come with the sandbox and are left out of the dependencies (-MMD)
    tag = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/")) + ("_" + hashlib.sha1(" ".join(extra).encode()).hexdigest()[:8] if extra else "")
    obj = os.path.join(BUILD, "obj", tag + ".o")
    meta = obj + ".json"
    cmd = ["g++"] + COMMON + list(extra) + ["-c", src, "-o", obj, "-MMD", "-MF", obj + ".d"]
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(file_hash(p) == h for p, h in m["deps"].items()):
            return obj, m["key"]
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(meta):
        os.remove(meta)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("cannot compile %s\n%s" % (src, r.stdout[-4000:]))
    deps = {p: file_hash(p) for p in parse_deps(obj + ".d")}
    key = hashlib.sha256(json.dumps([cmd, sorted(deps.items())]).encode()).hexdigest()
    tmp = meta + ".tmp"
    json.dump({"cmd": cmd, "deps": deps, "key": key}, open(tmp, "w"))
    os.rename(tmp, meta)
    return obj, key


def repo_sources(words):
    import glob
    out = []
    for w in words:
        for pat in GROUPS.get(w, [w]):
            found = sorted(glob.glob(os.path.join(REPO, "src", pat)))
            for f in found:
                if f not in out:
                    out.append(f)
    return out


def spec(name):
    """Sources of a harness, from the USES line at its top."""
    src = os.path.join(HARNESS, name + ".cpp")
    uses, flags, shim, more = [], [], True, []
    for line in open(src):
        m = re.match(r"// (USES|FLAGS|NOSHIM|MORE):?(.*)", line)
        if not m:
            if line.startswith("//"):
                continue
            break
        if m.group(1) == "USES":
            uses += m.group(2).split()
        elif m.group(1) == "FLAGS":
            flags += m.group(2).split()
        elif m.group(1) == "MORE":
            more += m.group(2).split()
        else:
            shim = False
    jobs = [(src, tuple(flags)), (os.path.join(HARNESS, "pbt.cpp"), ())]
    jobs += [(os.path.join(HARNESS, m), tuple(flags)) for m in more]
    jobs += [(s, tuple(flags)) for s in repo_sources(uses)]
    if shim:
        jobs += [(os.path.join(SHIM, s), ()) for s in SHIM_SOURCES]
    return jobs


def build(names, jobs=8, keep_going=False):
    """Returns {name: path of program}; with keep_going, failures map to the BuildError."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        specs = {n: spec(n) for n in names}
        todo = []
        for s in specs.values():
            for j in s:
                if j not in todo:
                    todo.append(j)
        todo.sort(key=lambda j: -os.path.getsize(j[0]))
        done = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            futs = {j: ex.submit(compile_one, j[0], j[1]) for j in todo}
            for j, f in futs.items():
                try:
                    done[j] = f.result()
                except BuildError as e:
                    done[j] = e
        out = {}

        def link(n):
            for j in specs[n]:
                if isinstance(done[j], BuildError):
                    return done[j]
            objs = [done[j][0] for j in specs[n]]
            key = hashlib.sha256(json.dumps([done[j][1] for j in specs[n]] + LINK).encode()).hexdigest()
            exe = os.path.join(BUILD, "bin", n)
            try:
                if os.path.exists(exe) and open(exe + ".key").read() == key:
                    return exe
            except OSError:
                pass
            r = subprocess.run(["g++"] + objs + ["-o", exe] + LINK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return BuildError("cannot link %s\n%s" % (n, r.stdout[-4000:]))
            open(exe + ".key", "w").write(key)
            return exe

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for n, r in zip(specs, ex.map(link, specs)):
                if isinstance(r, BuildError) and not keep_going:
                    raise r
                out[n] = r
        return out


def all_harnesses():
    return sorted(f[:-4] for f in os.listdir(HARNESS) if re.match(r"c[0-9]+_.*\.cpp$", f))


def harness_of(prop):
    for n in all_harnesses():
        if n.startswith(prop.lower() + "_"):
            return n
    raise SystemExit("no harness for " + prop)


if __name__ == "__main__":
    names = sys.argv[1:] or all_harnesses()
    res = build(names, keep_going=True)
    bad = 0
    for n, r in res.items():
        if isinstance(r, BuildError):
            bad += 1
            print(n, "FAILED", r)
    print("%d of %d programs built" % (len(res) - bad, len(res)))
    # setup succeeds as long as the tree can be used; a check whose program is missing reports it itself
    sys.exit(0)
