"""What each check explores: a list of configurations per property and tier.

A configuration is (scenario, module kind, variant, parameters).  Variants:
plain, asan (AddressSanitizer on the code under test), bb (every basic block of
the code under test is an injection point), hid (compiled with HIDIOCREVOKE).
Depth is the number of environment operations; `budget` the number of deviations
(injections, injected failures, short transfers) per history.
"""


def seat(params, variant="plain"):
    return ("seat", "seatd", variant, dict(x.split("=", 1) for x in params.split()))


BASE = "conn,disc,open,close,dis,sw"
DEV = BASE + ",dev:0,dev:1,cdev"
DEV1 = BASE + ",dev:0,cdev"

# name -> (quick, thorough) parameter strings and variant
S = {
    # histories of well-formed requests, no devices
    "vt0": ("vt=0 nc=3 depth=9 menu=%s" % BASE, "vt=0 nc=4 depth=11 menu=%s" % BASE),
    "vt1": ("vt=1 nc=3 depth=8 menu=%s,vt" % BASE, "vt=1 nc=3 depth=10 menu=%s,vt" % BASE),
    "four": ("vt=0 nc=4 depth=8 menu=%s" % BASE, "vt=1 nc=4 depth=9 menu=%s,vt" % BASE),
    "vtnum": ("vt=1 nc=2 vtnum=1,9,12 depth=6 menu=%s,swx,vt" % DEV1, "vt=1 nc=3 vtnum=1,9,12 depth=8 menu=%s,swx,vt" % DEV1),
    # with devices
    "dev0": ("vt=0 nc=2 depth=8 menu=%s" % DEV, "vt=0 nc=3 depth=10 menu=%s" % DEV),
    "dev1": ("vt=1 nc=2 depth=7 menu=%s,vt" % DEV, "vt=1 nc=2 depth=10 menu=%s,vt" % DEV),
    "dev0p": ("vt=0 nc=3 depth=5 pre=0d1e2 menu=%s" % DEV, "vt=0 nc=3 depth=7 pre=0d1e2 menu=%s" % DEV),
    "dev1p": ("vt=1 nc=2 depth=6 pre=0d1vade menu=%s,vt" % DEV, "vt=1 nc=3 depth=8 pre=0d1vade menu=%s,vt" % DEV),
    # the lowest descriptors are free
    "low0": ("vt=0 nc=2 shut=3 faults=1 budget=1 depth=5 menu=%s" % DEV, "vt=0 nc=3 shut=3 faults=1 budget=1 depth=7 menu=%s" % DEV),
    "low1": ("vt=1 nc=2 shut=3 faults=1 budget=1 depth=4 menu=%s,vt" % DEV1, "vt=1 nc=2 shut=3 faults=1 budget=1 depth=6 menu=%s,vt" % DEV1),
    "hole0": ("vt=0 nc=2 pre=0 hole=1 faults=1 budget=1 depth=5 menu=%s" % DEV, "vt=0 nc=2 pre=0 hole=1 faults=1 budget=1 depth=7 menu=%s" % DEV),
    "hole1": ("vt=1 nc=2 pre=0 hole=2 faults=1 budget=1 depth=4 menu=%s,vt" % DEV1, "vt=1 nc=2 pre=0 hole=2 faults=1 budget=1 depth=6 menu=%s,vt" % DEV1),
    # many came and went; many stay
    "churn": ("vt=0 nc=3 depth=3 pre=c01 menu=%s,swx,dev:0" % BASE, "vt=0 nc=3 depth=5 pre=c01 menu=%s,swx,dev:0" % BASE),
    "crowd": ("vt=0 nc=3 depth=4 pre=0w12 menu=%s,swx,dev:0" % BASE, "vt=0 nc=3 depth=6 pre=0w12 menu=%s,swx,dev:0" % BASE),
    "many": ("vt=0 nc=3 depth=6 menu=%s,swx,cdevx,ping" % DEV1, "vt=0 nc=3 depth=8 menu=%s,swx,cdevx,ping" % DEV1),
    "manyv": ("vt=1 nc=2 depth=6 menu=%s,swx,cdevx,ping,vt" % DEV1, "vt=1 nc=3 depth=7 menu=%s,swx,cdevx,ping,vt" % DEV1),
    "hid": ("vt=0 nc=2 hid=1 depth=7 menu=%s,dev:0,dev:4,dev:1,cdev" % BASE,
            "vt=0 nc=2 hid=1 depth=10 menu=%s,dev:0,dev:4,dev:1,cdev" % BASE, "hid"),
    "hidp": ("vt=0 nc=2 hid=1 depth=6 pre=0dhe1 menu=%s,dev:0,dev:4,dev:1,cdev" % BASE,
             "vt=0 nc=2 hid=1 depth=8 pre=0dhe1 menu=%s,dev:0,dev:4,dev:1,cdev" % BASE, "hid"),
    # several requests arriving before the daemon runs
    "batch0": ("vt=0 nc=3 batch=2 depth=6 menu=%s" % DEV1, "vt=0 nc=3 batch=3 depth=8 menu=%s" % DEV1),
    "batch1": ("vt=1 nc=2 batch=2 depth=6 menu=%s,vt" % DEV1, "vt=1 nc=3 batch=3 depth=7 menu=%s,vt" % DEV1),
    # something happens between two system calls of the daemon
    "injvt": ("vt=1 nc=3 inject=1 budget=1 depth=6 inj=vt menu=%s,vt" % DEV1,
              "vt=1 nc=3 inject=1 budget=1 depth=8 inj=vt menu=%s,vt" % DEV1),
    "injvt2": ("vt=1 nc=2 inject=1 budget=2 depth=4 inj=vt pre=0 menu=%s,vt" % DEV1,
               "vt=1 nc=2 inject=1 budget=2 depth=6 devper=2 inj=vt pre=0 menu=%s,vt" % DEV1),
    "injcl0": ("vt=0 nc=2 inject=1 budget=1 depth=6 inj=sw,disc,open,dev:0,close,dis menu=%s" % DEV1,
               "vt=0 nc=3 inject=1 budget=1 depth=8 inj=sw,disc,open,dev:0,close,dis menu=%s" % DEV1),
    "injcl1": ("vt=1 nc=2 inject=1 budget=1 depth=5 inj=vt,sw,disc,open,dev:0,close,dis menu=%s,vt" % DEV1,
               "vt=1 nc=2 inject=1 budget=1 depth=7 inj=vt,sw,disc,open,dev:0,close,dis menu=%s,vt" % DEV1),
    "bbvt": ("vt=1 nc=2 inject=1 budget=1 bb=1 depth=3 inj=vt pre=0 menu=%s,vt" % DEV1,
             "vt=1 nc=2 inject=1 budget=1 bb=1 depth=5 inj=vt pre=0 menu=%s,vt" % DEV1, "bb"),
    # one call fails
    "fault0": ("vt=0 nc=2 faults=1 budget=1 depth=7 menu=%s" % DEV1,
               "vt=0 nc=3 faults=1 budget=1 depth=9 menu=%s" % DEV),
    "fault1": ("vt=1 nc=2 faults=1 budget=1 depth=6 menu=%s,vt" % DEV1,
               "vt=1 nc=2 faults=1 budget=1 depth=8 menu=%s,vt" % DEV1),
    "fault0p": ("vt=0 nc=3 faults=1 budget=1 depth=4 pre=0d1e menu=%s" % DEV,
                "vt=0 nc=3 faults=1 budget=1 depth=6 pre=0d1e menu=%s" % DEV),
    "faultasan": ("vt=1 nc=2 faults=1 budget=1 depth=5 menu=%s,vt" % DEV1,
                  "vt=1 nc=2 faults=1 budget=1 depth=7 menu=%s,vt" % DEV1, "asan"),
    # one call fails, with every error it can fail with
    "wide0": ("vt=0 nc=2 faults=1 wide=1 budget=1 depth=5 menu=%s,ping" % DEV,
              "vt=0 nc=2 faults=1 wide=1 budget=1 depth=7 menu=%s,ping" % DEV),
    "wide0p": ("vt=0 nc=2 faults=1 wide=1 budget=1 depth=4 pre=0d1e menu=%s" % DEV,
               "vt=0 nc=3 faults=1 wide=1 budget=1 depth=5 pre=0d1e menu=%s" % DEV),
    "wide1": ("vt=1 nc=2 faults=1 wide=1 budget=1 depth=5 menu=%s,vt" % DEV,
              "vt=1 nc=2 faults=1 wide=1 budget=1 depth=7 menu=%s,vt" % DEV),
    # a call fails, and the daemon is told to stop
    "faultt0": ("vt=0 nc=2 faults=1 budget=1 depth=6 menu=%s,term" % DEV1,
                "vt=0 nc=2 faults=1 budget=1 depth=8 menu=%s,term" % DEV1),
    "faultt1": ("vt=1 nc=2 faults=1 budget=1 depth=6 menu=%s,vt,term" % DEV1,
                "vt=1 nc=2 faults=1 budget=1 depth=8 menu=%s,vt,term" % DEV1),
    # transfers cut short, clients that do not read
    "short": ("vt=0 nc=2 shortio=1 budget=2 depth=6 menu=%s" % DEV1,
              "vt=0 nc=2 shortio=1 budget=3 depth=8 devper=2 menu=%s" % DEV1),
    "slow0": ("vt=0 nc=2 manual=1 cap=3 depth=8 menu=%s,ping,read,read:1" % DEV1,
              "vt=0 nc=2 manual=1 cap=3 depth=10 menu=%s,ping,read,read:1" % DEV1),
    "slow1": ("vt=1 nc=2 manual=1 cap=3 depth=6 menu=%s,vt,ping,read,read:1" % DEV1,
              "vt=1 nc=2 manual=1 cap=3 depth=8 menu=%s,vt,ping,read,read:1" % DEV1),
    "slow16": ("vt=0 nc=2 manual=1 cap=16 depth=6 pre=01 menu=%s,ping,read" % DEV1,
               "vt=0 nc=3 manual=1 cap=16 depth=8 pre=01 menu=%s,ping,read" % DEV1),
    # hostile bytes
    "raw": ("vt=0 nc=2 batch=1 depth=4 menu=conn,disc,open,close,dis,raw,half,fds",
            "vt=0 nc=2 batch=1 depth=5 menu=conn,disc,open,close,dis,dev:0,raw,half,fds"),
    "rawp": ("vt=0 nc=3 depth=3 pre=0d1e menu=%s,raw,half,fds,cdevx" % DEV1,
             "vt=0 nc=3 depth=4 pre=0d1e menu=%s,raw,half,fds,cdevx" % DEV1),
    "rawv": ("vt=1 nc=2 depth=4 pre=0 menu=%s,raw,half,fds,cdevx,vt" % DEV1,
             "vt=1 nc=2 depth=5 pre=0 menu=%s,raw,half,fds,cdevx,vt" % DEV1),
    "rawasan": ("vt=0 nc=2 batch=1 depth=4 menu=conn,disc,open,close,dis,dev:0,raw,half,fds",
                "vt=0 nc=2 batch=1 depth=5 menu=conn,disc,open,close,dis,dev:0,raw,half,fds", "asan"),
    "devasan": ("vt=0 nc=3 depth=6 menu=%s,cdevx,swx,half" % DEV, "vt=0 nc=3 depth=8 menu=%s,cdevx,swx,half" % DEV, "asan"),
    # every opcode, every size of every request; numbers that a narrower type would confuse
    "opc": ("vt=0 nc=2 depth=1 pre=0d1 menu=opc,siz:97", "vt=0 nc=2 depth=1 pre=0d1 menu=opc,siz:1"),
    "opcv": ("vt=1 nc=1 depth=1 pre=0e menu=siz:997", "vt=1 nc=1 depth=1 pre=0e menu=opc,siz:31"),
    "num0": ("vt=0 nc=3 depth=2 pre=0de1 menu=conn,open,dis,dev:2,num", "vt=0 nc=3 depth=3 pre=0de1 menu=conn,open,dis,num"),
    "num1": ("vt=1 nc=2 depth=2 pre=0de menu=conn,open,vt,dis,num", "vt=1 nc=2 depth=3 pre=0de menu=vt,dis,num"),
    # every device path of the list
    "gate": ("vt=0 nc=2 depth=3 pre=01 menu=%s,%s" % (BASE, ",".join("dev:%d" % i for i in range(38))),
             "vt=1 nc=2 depth=5 pre=0 menu=%s,vt,%s" % (BASE, ",".join("dev:%d" % i for i in range(38)))),
    "gateh": ("vt=0 nc=2 hid=1 depth=3 pre=01 menu=%s,%s" % (BASE, ",".join("dev:%d" % i for i in range(38))),
              "vt=0 nc=2 hid=1 depth=5 pre=0 menu=%s,%s" % (BASE, ",".join("dev:%d" % i for i in range(38))), "hid"),
    # names that are one character away from permitted ones
    "gaten": ("vt=0 nc=1 hid=1 near=1 depth=2 pre=0 menu=conn,open,dis,cdev,dev:0,dev:1,%s" % ",".join("dev:%d" % i for i in range(38, 74)),
              "vt=0 nc=1 hid=1 near=1 depth=3 pre=0 menu=conn,open,dis,cdev,dev:0,dev:1,%s" % ",".join("dev:%d" % i for i in range(38, 74)), "hid"),
    # a device path comes to mean something else while the daemon looks at it
    "swap": ("vt=0 nc=2 inject=1 budget=1 depth=6 inj=swap menu=%s,dev:0,dev:1,dev:14,cdev,swap" % BASE,
             "vt=0 nc=2 inject=1 budget=1 depth=8 inj=swap menu=%s,dev:0,dev:1,dev:14,cdev,swap" % BASE),
    # termination
    "pollf0": ("vt=0 nc=2 faults=1 pollfault=1 budget=1 depth=6 menu=%s" % DEV1,
               "vt=0 nc=3 faults=1 pollfault=1 budget=1 depth=6 menu=%s" % DEV1),
    "pollf1": ("vt=1 nc=2 faults=1 pollfault=1 budget=1 depth=7 menu=%s,vt" % DEV1,
               "vt=1 nc=2 faults=1 pollfault=1 budget=1 depth=8 menu=%s,vt" % DEV1),
    "term0": ("vt=0 nc=3 depth=7 menu=%s,term,int" % DEV1, "vt=0 nc=3 depth=9 menu=%s,term,int" % DEV1),
    "term1": ("vt=1 nc=2 depth=7 menu=%s,vt,term,int" % DEV1, "vt=1 nc=3 depth=8 menu=%s,vt,term,int" % DEV1),
    "injterm": ("vt=1 nc=2 inject=1 budget=1 depth=5 inj=term,int menu=%s,vt" % DEV1,
                "vt=1 nc=2 inject=1 budget=1 depth=7 inj=term,int menu=%s,vt" % DEV1),
    "bbterm": ("vt=1 nc=2 inject=1 budget=1 bb=1 depth=3 inj=term pre=0d1 menu=%s,vt" % DEV1,
               "vt=1 nc=2 inject=1 budget=1 bb=1 depth=5 inj=term,int pre=0d1 menu=%s,vt" % DEV1, "bb"),
    "batchterm": ("vt=1 nc=2 batch=1 depth=5 pre=0d1 menu=%s,vt,term,int" % DEV1,
                  "vt=1 nc=2 batch=2 depth=6 pre=0d1 menu=%s,vt,term,int" % DEV1),
    "episig": ("vt=1 nc=2 depth=7 epi=term menu=%s,vt" % DEV1, "vt=1 nc=3 depth=8 epi=int menu=%s,vt" % DEV),
}

CORE = "vt0 vt1 vtnum four dev0 dev1 dev0p dev1p many manyv hid batch0 batch1 injvt injcl0 injcl1 fault0 fault1 fault0p wide0 wide0p wide1 short slow0 slow1 slow16 raw rawp rawv gate"
PLAN = {
    "C01": "crowd vt0 vt1 injvt injvt2 injcl0 batch0 batch1 " + CORE + " bbvt",
    "C02": "hole0 low1 hole1 dev0 dev1 hid hidp dev0p dev1p injvt fault0 fault1 " + CORE + " term1 bbvt",
    "C03": "hole0 hole1 dev0 dev1 hid hidp dev0p dev1p injvt " + CORE,
    "C04": "gate gateh gaten swap dev0 dev1 injvt " + CORE,
    "C05": "hole0 low0 num0 dev0 gate hid hidp many dev0p dev1p rawp devasan m-one m-two m-asan " + CORE,
    "C06": "opc many manyv f-sweep f-one " + CORE,
    "C08": "opc opcv num0 num1 raw rawp rawv rawasan devasan " + CORE,
    "C09": "vt0 vt1 injvt injvt2 " + CORE + " bbvt",
    "C10": "churn crowd num0 num1 vt0 many manyv four batch0 " + CORE,
    "C11": "vt1 dev1 injvt injvt2 batch1 injcl1 manyv bbvt " + CORE,
    "C12": "vt1 dev1 injvt injvt2 batch1 injcl1 manyv bbvt " + CORE,
    "C13": "low1 hole1 vt1 dev1 injvt injvt2 batch1 injcl1 manyv bbvt term1 injterm episig faultt1 " + CORE,
    "C14": "hole0 hole1 low0 crowd vt0 vt1 dev0 dev1 many rawp devasan " + CORE,
    "C15": "slow0 slow1 slow16 short " + CORE,
    "C16": "low0 low1 hole0 hole1 fault0 fault1 fault0p wide0 wide0p wide1 faultasan faultt0 " + CORE,
    "C17": "term0 term1 pollf0 pollf1 injterm bbterm batchterm episig faultt0 faultt1 z-opts z-inj z-fault",
}


def dedup(names):
    out = []
    for n in names.split():
        if n not in out:
            out.append(n)
    return out


def plan(prop, tier):
    if prop in PLAN:
        r = []
        import configs_more
        for n in dedup(PLAN[prop]):
            if n not in S:
                r.append(configs_more.entry(n, tier))
                continue
            e = S[n]
            r.append((n,) + seat(e[0 if tier == "quick" else 1], e[2] if len(e) > 2 else "plain"))
        return r
    import configs_more
    return configs_more.plan(prop, tier)


def props():
    try:
        import configs_more
        return sorted(list(PLAN) + list(configs_more.props()))
    except ImportError:
        return sorted(PLAN)
