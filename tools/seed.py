#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the entries of seeds.py and confirms each in a
scratch copy: it builds, the existing tests pass, the demonstration passes
without the change and fails with it.   seed.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds


def run(c, cwd, **kw):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="seed-")
    bad = 0
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        R = tmp + "/repo"
        for s in seeds.ALL:
            if want and s["id"] not in want:
                continue
            run(["git", "checkout", "-q", "--", "."], R)
            d = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for name, txt in s["files"].items():
                p = os.path.join(d, name)
                open(p, "w").write(txt)
                if name.endswith(".sh"):
                    os.chmod(p, 0o755)
            for k in s.get("kit", []):
                shutil.copy(os.path.join(V, "tools/demokit", k), d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            ok0 = run([d + "/demo.sh"], R)
            for f, old, new in s["edits"]:
                t = open(R + "/" + f).read()
                if t.count(old) != 1:
                    print(s["id"], "edit matches", t.count(old), "times:", old[:60])
                    bad += 1
                t = t.replace(old, new, 1)
                open(R + "/" + f, "w").write(t)
            open(d + "/patch.diff", "w").write(run(["git", "diff"], R).stdout)
            b = run("rm -rf /tmp/seedb && meson setup /tmp/seedb . -Dwerror=false -Dlibseat-logind=systemd -Dlibseat-seatd=enabled -Dlibseat-builtin=enabled -Dserver=enabled -Dexamples=enabled -Dman-pages=disabled >/dev/null 2>&1; ninja -C /tmp/seedb 2>&1 | tail -5 && meson test -C /tmp/seedb 2>&1 | tail -8; rm -rf /tmp/seedb", R, shell=True)
            ok1 = run([d + "/demo.sh"], R)
            tests = "Fail:               0" in b.stdout.replace("\t", " ") or "Fail: 0" in " ".join(b.stdout.split())
            good = ok0.returncode == 0 and ok1.returncode not in (0, 99, 98) and tests
            bad += not good
            print("%-28s %s unchanged=%d changed=%d tests=%s  %s" %
                  (s["id"], "ok " if good else "BAD", ok0.returncode, ok1.returncode, tests, ok1.stdout.strip()[-160:]))
            if not good:
                print(ok0.stdout[-800:], b.stdout[-1500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
