#!/usr/bin/env python3
"""Development aid for planted bugs.
  seed.py try ID...   in a copy of /repo: the patch applies, demo.sh passes
                      without it and fails with it, and which checks notice it
The build and the stable tests are left to vcheck --bug ID."""
import json, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_PY = '''"""Builds demo.cpp against the sources in the current directory and runs it."""
import os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SRCS = %r
MPI = "/usr/lib/x86_64-linux-gnu/openmpi"
DYN = ["-DBOOST_LOG_DYN_LINK", "-DBOOST_ALL_NO_LIB"] + ["-DBOOST_%%s_DYN_LINK" %% x for x in
       "ATOMIC CHRONO CONTAINER FILESYSTEM PROGRAM_OPTIONS REGEX SERIALIZATION THREAD".split()]
with tempfile.TemporaryDirectory() as tmp:
    os.makedirs(tmp + "/gen/fub")
    with open(REPO + "/include/fub/config.hpp.in") as f, open(tmp + "/gen/fub/config.hpp", "w") as g:
        for line in f:
            m = re.match(r"#cmakedefine\\s+(\\w+)", line)
            if m and m.group(1) == "FUB_DEFAULT_CHUNK_SIZE": line = "#define FUB_DEFAULT_CHUNK_SIZE 8\\n"
            elif m and m.group(1) in ("FUB_WITH_TBB", "FUB_WITH_OPENMP"): line = "#define %%s\\n" %% m.group(1)
            elif m: line = ""
            g.write(line)
    cmd = ["g++", "-std=c++17", "-w", "-g0", "-O0", "-DFMT_HEADER_ONLY=1", "-fno-strict-aliasing"] + DYN + %r + [
           "-isystem", MPI + "/include", "-isystem", MPI + "/include/openmpi", "-isystem", "/usr/include/eigen3",
           "-isystem", "/usr/include/python3.12", "-I" + REPO, "-I" + REPO + "/include", "-I" + tmp + "/gen",
           HERE + "/demo.cpp"] + [REPO + "/" + s for s in SRCS] + ["-o", tmp + "/demo", "-Wl,-rpath," + MPI + "/lib",
           MPI + "/lib/libmpi_cxx.so", MPI + "/lib/libmpi.so", "-lboost_container", "-lboost_log", "-lboost_chrono",
           "-lboost_filesystem", "-lboost_regex", "-lboost_thread", "-lboost_atomic", "-lboost_program_options",
           "-lboost_serialization", "/usr/lib/libVc.a", "-lpython3.12", "-lgmp", "-lmpfr", "-lgfortran", "-lquadmath", "-lpthread"]
    subprocess.run(cmd, check=True)
    r = subprocess.run([tmp + "/demo"], timeout=120, cwd=tmp,
                       env=dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self"))
    sys.exit(0 if r.returncode == 0 else 1)
'''

def new(id, prop, needs, breaks, edits, demo, srcs=(), flags=()):
    """edits: [(file, old, new)]"""
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    tmp = "/tmp/seednew.%d" % os.getpid()
    patch = ""
    byfile = {}
    for f, old, neu in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        byfile[f] = s.replace(old, neu)
    for f, s in byfile.items():
        open(tmp, "w").write(s)
        p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "/repo/" + f, tmp], capture_output=True, text=True).stdout
        lines = p.splitlines(True)
        k = next(i for i, x in enumerate(lines) if x.startswith("--- "))
        lines[k] = "--- a/%s\n" % f; lines[k + 1] = "+++ b/%s\n" % f
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(lines[k:])
    os.unlink(tmp)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(demo.lstrip())
    open(d + "/demo.py", "w").write(DEMO_PY % (list(srcs), list(flags)))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

def trial(ids, check=True, part=0):
    R = "/tmp/seedrepo.%d.%d" % (os.getpid(), part)
    os.makedirs(R); subprocess.run("tar -C ${SRC:-/repo} --exclude=./_build -cf - . | tar -C %s -xf -" % R, shell=True, check=True)
    env = dict(os.environ, VERIF_DEV_SKIP_DESIGN="1", VERIF_REPO=R, VERIF_WORK="s%d" % part)
    for i in ids:
        d = os.path.join(V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        r0 = subprocess.run([d + "/demo.sh"], cwd=R, capture_output=True, text=True)
        a = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
        r1 = subprocess.run([d + "/demo.sh"], cwd=R, capture_output=True, text=True)
        built = "error:" not in r1.stderr
        msg = ""
        if check:
            c = subprocess.run(["python3", os.path.join(os.path.dirname(V), "check.py"), prop], capture_output=True, text=True, env=env)
            line = [x for x in c.stdout.splitlines() if x.startswith("#")]
            msg = "check %s rc %d %s" % (prop, c.returncode, line[0][:160] if line else (c.stdout + c.stderr)[-300:].replace("\n", " "))
        subprocess.run(["git", "-C", R, "apply", "-R", d + "/patch.diff"], check=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and built
        print(i, "demo ok" if ok else "DEMO WRONG clean %d patched %d %s" % (r0.returncode, r1.returncode, (r0.stdout + r0.stderr + r1.stdout + r1.stderr)[-1500:]), "|", msg, flush=True)
    shutil.rmtree(R)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda k: trial(ids[k::4], sys.argv[1] == "try", k) if ids[k::4] else None, range(4)))
