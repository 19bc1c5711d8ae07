#!/usr/bin/env python3
"""Checks a property:  run.py check ID [quick|thorough]
Replays a violation:  run.py replay FILE
Builds the framework: run.py setup
"""
import json, os, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build, configs

ASANENV = "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0:exitcode=66:malloc_context_size=3:quarantine_size_mb=32"


def findings(prop):
    """Known findings: lines 'KNOWN-FINDING: property=<id> match=<text> ...' """
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % prop) and "match=" in l:
                out.append(l.split('match="', 1)[1].split('"', 1)[0])
    return out


class Suts:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        self.have = {}

    def get(self, kind, variant):
        mc = build.engine(asan=variant == "asan")
        d = os.path.join(self.tmp, variant)
        for k in kind.split("+"):
            if (k, variant) not in self.have:
                os.makedirs(d, exist_ok=True)
                copies = 1
                if "*" in k:
                    k0, n = k.split("*")
                    copies = int(n)
                else:
                    k0 = k
                build.sut(d, k0, mc, asan=variant == "asan", bb=variant == "bb", hid=variant == "hid", copies=copies)
                self.have[(k, variant)] = 1
        return mc, d

    def drop(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def run_mc(mc, d, scn, params, prop, known, extra, jobs, limit):
    cmd = [mc, scn, "sut=" + d, "prop=" + prop, "jobs=%d" % jobs, "time=%d" % limit]
    cmd += ["%s=%s" % kv for kv in params.items()] + ["known=" + k for k in known] + extra
    env = dict(os.environ, ASAN_OPTIONS=ASANENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = min(8, os.cpu_count() or 8)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = findings(prop)
    suts = Suts()
    rows, viol, seen_known, broken = [], None, set(), None
    total = 850 if tier == "quick" else 3600 * 3
    try:
        for name, scn, kind, variant, params in configs.plan(prop, tier):
            left = total - (time.time() - t0)
            if left < 20:
                rows.append({"config": name, "skipped": "time"})
                continue
            mc, d = suts.get(kind, variant)
            st = os.path.join(suts.tmp, "stats.json")
            if os.path.exists(st):
                os.unlink(st)
            lim = min(left - 10, 300 if tier == "quick" else 1800)
            r = run_mc(mc, d, scn, params, prop, known, ["outdir=" + suts.tmp, "stats=" + st, "verbose=0"], jobs, lim)
            for l in r.stdout.splitlines():
                if l.startswith("KNOWN "):
                    seen_known.add(l.split(" ", 2)[2])
            row = {"config": name, "scenario": scn, "variant": variant,
                   "params": " ".join("%s=%s" % kv for kv in sorted(params.items()))}
            if os.path.exists(st):
                row.update(json.load(open(st)))
            rows.append(row)
            if r.returncode == 1:
                l = [x for x in r.stdout.splitlines() if x.startswith("VIOL ")][0]
                f = l.split()[2]
                dst = os.path.join(rdir, "%s-%s.json" % (prop, name))
                j = json.load(open(f))
                j["kind"], j["variant"], j["config"] = kind, variant, name
                json.dump(j, open(dst, "w"), indent=1)
                viol = (dst, j["message"], name)
                break
            if r.returncode != 0:
                broken = "%s: exit %d\n%s%s" % (name, r.returncode, r.stdout[-2000:], r.stderr[-2000:])
                break
    finally:
        suts.drop()
    ok = [r for r in rows if "states" in r]
    samples = []
    for r in ok:
        for s in r.get("samples", [])[:1]:
            samples.append("%s: %s" % (r["config"], s))
    for r in rows:
        r.pop("samples", None)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in ok),
            "transitions": sum(r["transitions"] for r in ok),
            "traces_validated_against_impl": sum(r["validated"] for r in ok),
            "deviation_runs": sum(r["deviation_runs"] for r in ok),
            "samples": samples[:8] or ["none"],
            "exhaustive": bool(ok) and all(r.get("exhausted") for r in rows) and not viol,
            "explanation": "Every transition executes the code under test, compiled from /repo's working tree, under the simulated "
                           "kernel; a state is stored once per distinct key and every stored state was reached again by re-running its "
                           "history from the start, with its key compared (traces_validated_against_impl). Configurations that ran to "
                           "the end of their bounds are marked exhausted.",
            "configurations": rows,
        },
        "assumptions": ["the simulated kernel (sockets, VTs, DRM master, evdev revoke, signals, file system) behaves as described in DESIGN.md",
                        "histories beyond the stated depth, client count and number of deviations are not explored"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        print("%s: %s" % (viol[2], viol[1]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        return 1
    if broken:
        print("check broken: " + broken)
        return 2
    print("%s held: %d states, %d transitions in %d configurations, %.1f s" %
          (prop, ev["coverage"]["states"], ev["coverage"]["transitions"], len(ok), ev["wall_s"]))
    return 0


def replay(f):
    j = json.load(open(f))
    suts = Suts()
    try:
        mc, d = suts.get(j["kind"], j["variant"])
        r = run_mc(mc, d, j["scenario"], j["params"], j["property"], [], ["replay=" + os.path.abspath(f)], 1, 60)
        sys.stdout.write(r.stdout + r.stderr)
        return r.returncode
    finally:
        suts.drop()


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build.engine()
        build.engine(asan=True)
        return 0
    if a[:1] == ["check"] and len(a) >= 2:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
