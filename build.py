"""Builds the model checker and the code under test (from /repo's working tree).

The code under test is compiled with the repository's own headers and flags,
linked into one relocatable object, and every symbol it imports that the
simulated kernel implements is renamed to sim_*; the rest of its imports must be
pure functions on a short list.  Nothing is cached between trees: the key of a
build is the content of every source file involved.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
ENG = os.path.join(VERIF, "engine")

BASE = ["-std=c11", "-D_XOPEN_SOURCE=700", "-D__BSD_VISIBLE", "-D_NETBSD_SOURCE",
        '-DSEATD_VERSION="0.6.3"', '-DSEATD_DEFAULTPATH="/run/seatd.sock"',
        '-DSEATD_INSTALLPATH="/usr/local/bin/seatd"', '-DREL_SRC_DIR=""',
        "-I" + REPO + "/include", "-fPIC", "-O1", "-g", "-U_FORTIFY_SOURCE",
        "-fno-omit-frame-pointer", "-fno-stack-protector", "-fno-builtin-printf", "-w"]
LIBDEFS = ["-DLIBSEAT=1", "-DSEATD_ENABLED", "-DBUILTIN_ENABLED", "-DLOGIND_ENABLED", "-DHAVE_LIBSYSTEMD"]

# imports with no effect outside the process' own memory: used as they are
PURE = set("""memcpy memmove memset memcmp memchr memrchr rawmemchr strlen strnlen strcmp strncmp strcpy strncpy stpcpy
strcat strncat strchr strrchr strchrnul strstr strspn strcspn strpbrk strtok_r strcasecmp strncasecmp strerror strerror_r
strtol strtoul strtoll strtoull __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull atoi atol
snprintf vsnprintf sprintf vsprintf sscanf vsscanf __isoc99_sscanf __isoc23_sscanf __isoc99_vsscanf
__snprintf_chk __vsnprintf_chk __sprintf_chk __memcpy_chk __memset_chk __strcpy_chk __strcat_chk __strncpy_chk
sigemptyset sigfillset sigaddset sigdelset sigismember qsort bsearch abs labs toupper tolower isdigit isalpha isspace
basename __xpg_basename dirname __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc explicit_bzero bzero ffs
__errno_location stderr stdout stdin strsignal strsep strndupa __cmsg_nxthdr gnu_dev_major gnu_dev_minor gnu_dev_makedev
_GLOBAL_OFFSET_TABLE_ __tls_get_addr environ __environ htons ntohs htonl ntohl rand srand random srandom ppoll_pure
strtok __strtok_r index rindex mempcpy memccpy stpncpy strlcpy strlcat __memmove_chk __mempcpy_chk __stpcpy_chk __strncat_chk __stpncpy_chk __vsprintf_chk
atoll strtod isxdigit isalnum isupper islower ispunct isprint memmem strverscmp div ldiv sigorset sigisemptyset pthread_mutex_lock pthread_mutex_unlock
__stack_chk_fail setlocale strftime localtime localtime_r gmtime_r gmtime ctime ctime_r asctime bcmp bcopy strerrorname_np strerrordesc_np sigabbrev_np sigdescr_np
 pthread_mutex_init pthread_mutex_destroy pthread_once pthread_self llabs imaxabs strcoll""".split())


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build: %s\n%s\n" % (" ".join(cmd), r.stderr[-4000:]))
        raise SystemExit(2)
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def atomic_dir(dst, fill):
    """Fill a fresh directory and move it into place (checks may run side by side)."""
    if os.path.exists(os.path.join(dst, "ok")):
        return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp", dir=os.path.dirname(dst))
    fill(tmp)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def engine(asan=False):
    """The explorer with every scenario that does not need repository headers."""
    srcs = sorted(glob.glob(ENG + "/*.cc"))
    dst = os.path.join(OUT, "engine-" + ("asan-" if asan else "") + digest(srcs + glob.glob(ENG + "/*.h"), "2"))

    def fill(tmp):
        fl = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
        if asan:
            fl += ["-fsanitize=address"]

        def one(s):
            o = os.path.join(tmp, os.path.basename(s)[:-3] + ".o")
            sh(["g++"] + fl + ["-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        sh(["g++"] + (["-fsanitize=address"] if asan else []) + ["-rdynamic", "-o", os.path.join(tmp, "mc")] + objs + ["-ldl"])
        for o in objs:
            os.remove(o)
    atomic_dir(dst, fill)
    # keep the cache small
    for d in glob.glob(OUT + "/engine-*"):
        if d != dst and ("asan" in d) == asan:
            shutil.rmtree(d, ignore_errors=True)
    return os.path.join(dst, "mc")


def sim_syms(mc):
    return {l.split()[-1][4:] for l in sh(["nm", "-D", "--defined-only", mc]).splitlines() if " sim_" in l}


def module(tmp, name, srcs, defs, mc, asan=False, bb=False, copies=1, keep=(), gccflags=()):
    """Compile sources into name.so with their effects redirected to the simulated kernel."""
    fl = BASE + list(defs) + list(gccflags)
    if asan:
        fl += ["-fsanitize=address", "--param=asan-stack=0"] if False else ["-fsanitize=address"]
    if bb:
        fl += ["-fsanitize-coverage=trace-pc"]
    work = tempfile.mkdtemp(prefix="o", dir=tmp)

    def one(s):
        o = os.path.join(work, s.replace("/", "_")[-80:] + ".o")
        sh(["gcc"] + fl + ["-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    rel = os.path.join(work, "all.o")
    sh(["ld", "-r", "-o", rel] + objs)
    und = [l.split()[-1] for l in sh(["nm", "-u", rel]).splitlines()]
    have = sim_syms(mc)
    args = []
    for u in und:
        if u in have:
            args += ["--redefine-sym", "%s=sim_%s" % (u, u)]
        elif u in PURE or u.startswith(("__asan_", "__ubsan_", "__sanitizer_", "sim_", "mc_")):
            pass
        else:
            sys.stderr.write("build: the code under test uses %s, which the simulated kernel does not provide\n" % u)
            raise SystemExit(2)
    if args:
        sh(["objcopy"] + args + [rel])
    so = os.path.join(tmp, name + ".so")
    sh(["gcc", "-shared", "-o", so, rel, "-Wl,-Bsymbolic", "-Wl,-z,relro", "-Wl,-z,now"] + (["-fsanitize=address"] if asan else []))
    for i in range(1, copies):
        shutil.copy(so, os.path.join(tmp, "%s%d.so" % (name, i)))
    shutil.rmtree(work, ignore_errors=True)
    return so


def g(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def sut(tmp, kind, mc, asan=False, bb=False, hid=False, copies=1):
    defs = ["-DHIDIOCREVOKE=_IOW('H',0x0D,int)"] if hid else []
    if kind == "seatd":
        return module(tmp, "seatd", g("seatd/*.c", "common/*.c"), defs, mc, asan, bb, copies)
    if kind == "libseat":
        srcs = g("libseat/*.c", "libseat/backend/*.c", "common/*.c") + [s for s in g("seatd/*.c") if not s.endswith("/seatd.c")]
        return module(tmp, "libseat", srcs, defs + LIBDEFS, mc, asan, bb, copies)
    if kind == "launch":
        return module(tmp, "launch", g("seatd-launch/*.c"), defs, mc, asan, bb, copies)
    if kind == "parts":
        # poller, connection, list and log with a driver that sees the repository's headers
        srcs = g("common/*.c", "seatd/poller.c") + [ENG + "/drv/parts.c"]
        # the ring counters, if they are still there by these names
        r = subprocess.run(["gcc"] + BASE + ["-DHAVE_COUNTERS", "-fsyntax-only", ENG + "/drv/parts.c"], capture_output=True)
        return module(tmp, "parts", srcs, defs + (["-DHAVE_COUNTERS"] if r.returncode == 0 else []), mc, asan, bb, copies)
    raise SystemExit("unknown module " + kind)
