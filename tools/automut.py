#!/usr/bin/env python3
"""automut.py [FILE...]: first-order mutants of the sources, each run against the quick configurations of all scenarios that
compile the file (all properties at once, until something is reported).  Prints one line per mutant; survivors are the ones to
look at.  Environment: BASE (repository), WORKERS, OUT (log file; mutants in it are not run again), MAXS (seconds per configuration).
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build, configs, configs_more, run
BASE = os.environ.get("BASE", "/repo")
OUT = os.environ.get("OUT", "/tmp/automut.log")
MAXS = int(os.environ.get("MAXS", "10"))
KINDS = {"seatd": ["seatd", "seatd+libseat*3", "libseat"], "libseat": ["libseat", "libseat*2", "seatd+libseat*3"],
         "common": ["parts", "seatd", "libseat", "seatd+libseat*3"], "seatd-launch": ["launch"]}
PARTS = {"connection.c", "linked_list.c", "log.c", "poller.c"}


def mutants(path, text):
    """(line number, description, new text)"""
    lines = text.split("\n")
    out = []
    infn = False

    def put(i, new, d):
        if new != lines[i]:
            out.append((i + 1, d, "\n".join(lines[:i] + [new] + lines[i + 1:])))
    for i, l in enumerate(lines):
        if l.startswith("{") or (l and l[0] not in " \t#/}*" and l.endswith("{") and "(" in l):
            infn = True
        if l.startswith("}"):
            infn = False
        if not infn and not l.startswith("#define"):
            continue
        s = l.strip()
        if not s or s.startswith(("//", "/*", "*", "#if", "#e", "log_", "assert(", "case ", "default:", "}")) and not s.startswith("} else if"):
            continue
        if l.startswith("#define") and not re.search(r"\d", l):
            continue
        # statement deletion
        if s.endswith(";") and not re.match(r"(return|struct|int|char|bool|size_t|const|uint|enum|static|va_list|pid_t|short|goto|break|continue|ssize_t|sd_bus\w* )\b", s) and s.count("(") == s.count(")") and not s.startswith(("\"", "strerror")):
            prev = lines[i - 1].strip()
            if prev.endswith((";", "{", "}", ":")) or prev == "" or prev.startswith("//"):
                put(i, "", "delete: " + s)
        if s in ("break;", "continue;"):
            put(i, "", "delete: " + s + " after " + lines[i - 1].strip())
        m = re.match(r"^(\s*)(\} else )?if \((.*)\) \{$", l)
        if m and "errno" not in m.group(3) or m:
            put(i, "%s%sif (!(%s)) {" % (m.group(1), m.group(2) or "", m.group(3)), "negate")
            put(i, "%s%sif (0 && (%s)) {" % (m.group(1), m.group(2) or "", m.group(3)), "never")
            put(i, "%s%sif (1 || (%s)) {" % (m.group(1), m.group(2) or "", m.group(3)), "always")
        code = l
        for a, bs in ((" == ", [" != "]), (" != ", [" == "]), (" < ", [" <= "]), (" <= ", [" < "]), (" > ", [" >= "]), (" >= ", [" > "]), (" && ", [" || "]), (" || ", [" && "]),
                      (" + ", [" - "]), (" - ", [" + "]), ("++", ["--"]), (" += ", [" -= "]), (" -= ", [" += "])):
            p = code.find(a)
            while p >= 0:
                if code[:p].count('"') % 2 == 0:
                    for b in bs:
                        put(i, code[:p] + b + code[p + len(a):], "%s to %s" % (a.strip(), b.strip()))
                p = code.find(a, p + len(a))
        for m in re.finditer(r"\b(true|false)\b", code):
            put(i, code[:m.start()] + ("false" if m.group(1) == "true" else "true") + code[m.end():], "flip " + m.group(1))
        for m in re.finditer(r"(?<![\w.%\"])(-?\d+)\b(?![\w.]*\")", code):
            if code[:m.start()].count('"') % 2:
                continue
            n = int(m.group(1))
            for k in {-1: [0], 0: [1, -1]}.get(n, [n + 1, n - 1]):
                put(i, code[:m.start()] + str(k) + code[m.end():], "%d to %d" % (n, k))
        for m in re.finditer(r" \| [A-Z_]+", code):
            put(i, code[:m.start()] + code[m.end():], "drop" + m.group(0))
        for m in re.finditer(r"\b[A-Z_]+ \| ", code):
            put(i, code[:m.start()] + code[m.end():], "drop " + m.group(0))
        for m in re.finditer(r"= (E[A-Z]+);", code):
            put(i, code[:m.start(1)] + ("EIO" if m.group(1) != "EIO" else "EINVAL") + code[m.end(1):], "errno " + m.group(1))
        for m in re.finditer(r"\((!)\w", code):
            put(i, code[:m.start(1)] + code[m.end(1):], "drop !")
        m = re.match(r"^(\s*)return (\w+);$", l)
        if m and m.group(2) not in ("NULL", "0", "1", "-1", "true", "false"):
            put(i, m.group(1) + "return 0;", "return 0")
            put(i, m.group(1) + "return -1;", "return -1")
    return out


def table(f):
    kinds = KINDS[f.split("/")[0]]
    t = []
    for p, (q, _, v) in {k: (x[0], x[1], x[2] if len(x) > 2 else "plain") for k, x in {n: (c if len(c) == 3 else c) for n, c in configs.S.items()}.items()}.items():
        if "seatd" in kinds:
            t.append((p, "seat", "seatd", v, dict(x.split("=", 1) for x in q.split())))
    for n, (scn, kind, v, q, _) in configs_more.M.items():
        if kind in kinds or kind.split("*")[0] in kinds:
            if kind == "parts" and os.path.basename(f) not in PARTS and f.split("/")[0] != "common":
                continue
            t.append((n, scn, kind, v, dict(x.split("=", 1) for x in q.split())))
    if os.path.basename(f) in ("poller.c",):
        for n, (scn, kind, v, q, _) in configs_more.M.items():
            if kind == "parts" and scn == "poller":
                t.append((n, scn, kind, v, dict(x.split("=", 1) for x in q.split())))
    if f.startswith("libseat/backend/logind"):
        t = [x for x in t if x[1] in ("logind", "backend")]
    if f.startswith("libseat/backend/noop"):
        t = [x for x in t if x[1] in ("noop", "backend")]
    if f.startswith("libseat/backend/seatd"):
        t = [x for x in t if x[1] in ("lib", "backend", "e2e")]
    if f.startswith("libseat/libseat.c"):
        t = [x for x in t if x[1] in ("lib", "backend", "e2e", "noop")]
    if f.startswith("seatd/") and f != "seatd/seatd.c":
        t = [x for x in t if x[1] not in ("lib", "backend", "logind", "noop", "start")]
    if f == "seatd/seatd.c":
        t = [x for x in t if x[1] == "start"] + [x for x in t if x[0] in ("vt0", "term0")]
    if S1:
        t = [x for x in t if x[0] in S1 or x[1] not in ("seat", "twin", "sweep", "limit", "e2e", "e2etwin", "start")]
    # cheap ones first
    order = {"parts": 0, "seatd": 1}
    return sorted(t, key=lambda x: (order.get(x[2], 2), x[3] != "plain", COST.get(x[0], 5)))


MS = [MAXS]
COST = {n: i / 100 for i, n in enumerate(("dev0 vt1 many gate fault0 dev1 short rawp slow0 term1 injvt fault1 vt0 dev0p devasan hid m-one f-sweep f-one faultasan "
                                         "z-opts z-fault z-inj z-noread").split())}
S1 = set(COST) | {"e-base", "b-term", "b-vt", "b-fault"} if os.environ.get("STAGE", "1") == "1" else None


def one(job):
    w, f, ln, desc, text = job
    repo = REPOS[w]
    p = os.path.join(repo, f)
    open(p, "w").write(text)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="am-")
    res = None
    have = set()
    try:
        for name, scn, kind, v, params in table(f):
            d = os.path.join(tmp, v)
            mc = build.engine(asan=v == "asan")
            for k in kind.split("+"):
                if (k, v) in have:
                    continue
                os.makedirs(d, exist_ok=True)
                k0, n = (k.split("*") + ["1"])[:2]
                r = subprocess.run([sys.executable, "-c", "import sys;sys.path.insert(0,%r);sys.dont_write_bytecode=True;import build;build.sut(%r,%r,%r,asan=%r,bb=%r,hid=%r,copies=%d)" %
                                    (V, d, k0, mc, v == "asan", v == "bb", v == "hid", int(n))], env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    return "nobuild", ""
                have.add((k, v))
                if len(have) == 1:
                    h = subprocess.run("objdump -d -s -j .text -j .rodata -j .data %s/*.so | grep -v 'file format' | md5sum" % d, shell=True, stdout=subprocess.PIPE, text=True).stdout
                    if desc == "baseline":
                        ORIG[(w, k, v)] = h
                    elif h == ORIG.get((w, k, v)):
                        return "same", ""
            prop = "G01" if scn == "e2etwin" else ""
            r = run.run_mc(mc, d, scn, params, prop, [], ["outdir=" + tmp, "verbose=0"], 1, MS[0])
            if r.returncode == 1:
                l = r.stdout.splitlines()
                i = [j for j, x in enumerate(l) if x.startswith("VIOL ")][0]
                return "killed", "%s %s: %s" % (l[i].split()[1], name, l[i + 1].strip() if i + 1 < len(l) else "")
            if r.returncode:
                return "broken", "%s %d %s" % (name, r.returncode, (r.stdout[-150:] + r.stderr[-150:]).replace("\n", " "))
        return "SURVIVED", ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
        job[0] = w


REPOS, ORIG = [], {}


def one_orig(j):
    global table
    o = table
    table = lambda f: o(f)[:1]
    try:
        MS[0], x = 1, MS[0]
        one(j)
        MS[0] = x
    finally:
        table = o


def main():
    files = sys.argv[1:]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            done.add(l.split("|")[1].strip() if "|" in l else "")
            m = re.match(r".*? \| \w+ \| (\S+):\d+ (.*) \| (.*?) \| \d+s", l)
            if m and os.environ.get("BYTEXT") == m.group(1): # the file's lines have moved
                done.add((m.group(1), m.group(2), m.group(3)))
    work = int(os.environ.get("WORKERS", "7"))
    root = tempfile.mkdtemp(prefix="automut-")
    import queue
    free = queue.Queue()
    try:
        for i in range(work):
            d = "%s/r%d" % (root, i)
            subprocess.run(["git", "clone", "-q", BASE, d], check=True)
            REPOS.append(d)
            free.put(i)
        build.engine(False)
        build.engine(True)
        jobs = []
        for f in files:
            t = open(os.path.join(BASE, f)).read()
            for ln, desc, new in mutants(f, t):
                hid = hashlib.md5((f + new).encode()).hexdigest()[:8]
                if hid not in done and (f, t.split("\n")[ln - 1].strip()[:90], desc) not in done:
                    jobs.append((f, ln, desc, new, hid, t.split("\n")[ln - 1].strip()))
        if os.environ.get("RERUN"):  # only the survivors of an earlier run
            again = set()
            for l in open(os.environ["RERUN"]):
                m = re.match(r"SURVIVED \| \w+ \| (\S+):\d+ (.*) \| (.*?) \| \d+s", l)
                if m and not re.search(os.environ.get("NOT", "^$"), l):
                    again.add(m.groups())
            jobs = [j for j in jobs if (j[0], j[5][:90], j[2]) in again]
        print("%d mutants" % len(jobs), flush=True)
        for f in files:
            t = open(os.path.join(BASE, f)).read()
            for i in range(work):
                j = [i, f, 0, "baseline", t]
                if i == 0 and os.environ.get("BASELINE"):
                    print(f, "baseline", one(j), flush=True)
                one_orig(j)
        # what the first module looks like unchanged, per worker the path is part of nothing
        def go(j):
            f, ln, desc, new, hid, src = j
            w = free.get()
            t0 = time.time()
            try:
                r, m = one([w, f, ln, desc, new])
            except Exception as e:
                r, m = "error", str(e)[:100]
            finally:
                free.put(w)
            with open(OUT, "a") as o:
                o.write("%-8s | %s | %s:%d %s | %s | %.0fs %s\n" % (r, hid, f, ln, src[:90], desc, time.time() - t0, m[:170]))
        with ThreadPoolExecutor(work) as ex:
            list(ex.map(go, jobs))
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
