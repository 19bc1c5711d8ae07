#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or PROPS=a,b / PROPS=all)
against a scratch copy of /repo with that bug.   trybugs.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
want = sys.argv[1:]
tmp = tempfile.mkdtemp(prefix="try-")
try:
    R = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for id in sorted(os.listdir(V + "/seeded")):
        if want and id not in want:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R, check=True)
        subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % id], cwd=R, check=True)
        prop = json.load(open(V + "/seeded/%s/meta.json" % id))["property"]
        ps = os.environ.get("PROPS", prop).split(",")
        if ps == ["all"]:
            import configs
            ps = configs.props()
        for p in ps:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/run.py", "check", p, os.environ.get("TIER", "quick")], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=R))
            res = {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN")
            print("%-30s %s %s %5.1fs  %s" % (id, p, res, time.time() - t, r.stdout.strip().splitlines()[0][:200] if r.stdout.strip() else ""), flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
