#!/usr/bin/env python3
"""mutate.py FILE [NAME...]: FILE defines M = [(name, source, old, new, "PROP PROP")...];
applies each to a scratch copy of /repo and runs the checks; says which notice."""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
tmp = tempfile.mkdtemp(prefix="mut-")
try:
    R = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", os.environ.get("BASE", "/repo"), R], check=True)
    for name, f, old, new, props in ns["M"]:
        if want and name not in want:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R, check=True)
        p = R + "/" + f
        s = open(p).read()
        if old not in s:
            print("%-24s STALE" % name, flush=True)
            continue
        open(p, "w").write(s.replace(old, new, 1))
        for pr in props.split():
            t = time.time()
            r = subprocess.run([sys.executable, V + "/run.py", "check", pr, "quick"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=R))
            res = {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN")
            l = r.stdout.strip().splitlines()
            print("%-24s %s %s %5.1fs  %s" % (name, pr, res, time.time() - t, l[0][:160] if l else ""), flush=True)
            if os.environ.get("FIRST") and res == "caught":
                break
finally:
    shutil.rmtree(tmp, ignore_errors=True)
