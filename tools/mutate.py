#!/usr/bin/env python3
"""Development aid: applies small changes to /repo's working tree one after the
other and shows which checks notice them.  usage: mutate.py FILE [name...]
FILE defines M = [(name, [props], path, old, new), ...].  The tree is restored."""
import os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
pick = sys.argv[2:]
REPO = "/tmp/mutrepo.%d" % os.getpid()
os.makedirs(REPO); subprocess.run("tar -C %s --exclude=./_build -cf - . | tar -C %s -xf -" % (os.environ.get("MUTSRC", "/repo"), REPO), shell=True, check=True)
env = dict(os.environ, VERIF_DEV_SKIP_DESIGN="1", VERIF_REPO=REPO, VERIF_WORK="m%d" % os.getpid())

for name, props, path, old, new in ns["M"]:
    if pick and name not in pick: continue
    f = REPO + "/" + path
    s = open(f).read()
    if s.count(old) < 1: print(name, "PATTERN NOT FOUND"); continue
    try:
        open(f, "w").write(s.replace(old, new, 1))
        for p in props:
            r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), p], capture_output=True, text=True, env=env)
            line = [x for x in r.stdout.splitlines() if x.startswith("#")]
            print(name, p, "rc", r.returncode, (line[0][:200] if line else (r.stdout + r.stderr)[-300:].replace("\n", " ")), flush=True)
    finally:
        open(f, "w").write(s)
import shutil; shutil.rmtree(REPO)
