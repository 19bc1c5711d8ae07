"""Configurations of the scenarios other than the daemon's (see configs.py)."""


def e(scn, kind, quick, thorough=None, variant="plain"):
    return (scn, kind, variant, quick, thorough or quick)


FA = "acts=1,2,3,4,5,6,7,8,9,10,12"
BAD = "bad=0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,30,31,32,33,34,35,36,37,38"
OBAD = "bad=0,1,2,3,4,5,6,7,10,11,12,13,14,15,16,20,21,22,23,24,25,26,27,30,31,33,34,35,36,37,38"
CODES = ",".join(str(1000 + i) for i in range(1, 134))
M = {
    # connections
    "c-bytes": e("conn", "parts", "depth=6 menu=prgb", "depth=10 menu=prgb put=1,2,100,300,b-1,b,b1 get=1,2,300,b"),
    "c-both": e("conn", "parts", "depth=5 menu=prgbh both=1", "depth=7 menu=prgbh both=1"),
    "c-wrap": e("conn", "parts", "depth=6 menu=prgb ctr=4294967290", "depth=9 menu=prgb ctr=4294967290"),
    "c-small": e("conn", "parts", "depth=8 menu=prgbh cap=64 put=1,20,300,b get=1,20,300", "depth=12 menu=prgbh cap=64 put=1,20,300,b get=1,20,300"),
    "c-tiny": e("conn", "parts", "depth=8 menu=prgbh cap=3 put=1,2,5,b get=1,2,5", "depth=12 menu=prgbh cap=3 put=1,2,5,b get=1,2,5"),
    "c-fault": e("conn", "parts", "depth=5 menu=prgb faults=1 shortio=1 budget=2", "depth=8 menu=prgb faults=1 shortio=1 budget=2 devper=2"),
    "c-sweep": e("conn", "parts", "depth=6 sweep=1 sstep=8", "depth=6 sweep=1 sstep=1"),
    "c-asan": e("conn", "parts", "depth=5 menu=prgbh both=1", "depth=8 menu=prgbh", "asan"),
    "c-wrapasan": e("conn", "parts", "depth=5 menu=prdGgx ctr=4294967000 fds=1,3,f-1,f,f1", "depth=7 menu=prdGgx ctr=4294967000 fds=1,f-1,f,f1", "asan"),
    "d-fds": e("conn", "parts", "depth=6 menu=prdGx fds=1,f-1,f1", "depth=8 menu=prdGx fds=1,f-1,f1"),
    "d-both": e("conn", "parts", "depth=6 menu=prdGxh both=1 put=1,b", "depth=7 menu=prdGxh both=1 put=1,b"),
    "d-surplus": e("conn", "parts", "depth=6 menu=wrgGxh put=1 get=1,b", "depth=8 menu=wrgGxh put=1 get=1,b"),
    "d-mix": e("conn", "parts", "depth=5 menu=prdGxw", "depth=7 menu=prdGxw"),
    "d-fault": e("conn", "parts", "depth=5 menu=prdGx faults=1 shortio=1 budget=2", "depth=7 menu=prdGx faults=1 shortio=1 budget=2 devper=2"),
    "d-small": e("conn", "parts", "depth=7 menu=prdG cap=3 put=1,2,5 fds=1,2", "depth=9 menu=prdG cap=3 put=1,2,5 fds=1,2"),
    "d-wrap": e("conn", "parts", "depth=6 menu=prdGx ctr=4294967280 fds=1,f-1", "depth=8 menu=prdGx ctr=4294967280 fds=1,f-1"),
    # poller
    "p-act": e("poller", "parts", "depth=3 srcs=3 nact=2 " + FA, "depth=4 srcs=3 nact=2 " + FA),
    "p-act3": e("poller", "parts", "depth=2 srcs=3 nact=3 " + FA, "depth=3 srcs=3 nact=3 acts=1,2,3,4,5,6,7,8,9"),
    "p-two": e("poller", "parts", "depth=5 slots=2 nact=2 " + FA, "depth=7 slots=2 nact=2 " + FA),
    "p-ev1": e("poller", "parts", "depth=3 srcs=2 slots=2 masks=0,1,2,3 rdy=1,2,3,4,5,8,9 acts=1,4", "depth=4 srcs=2 slots=2 masks=0,1,2,3 rdy=1,2,3,4,5,8,9 acts=1,4"),
    "p-ev2": e("poller", "parts", "depth=2 srcs=3 masks=0,1,2,3 rdy=10,6,15,12,13,7,14 acts=4", "depth=3 srcs=3 masks=0,1,2,3 rdy=10,6,15,12,13,7,14 acts=4"),
    "p-many": e("poller", "parts", "depth=4 srcs=3 acts=1,10 bulk=1,7,40 nact=1", "depth=6 srcs=3 acts=1,2,10 bulk=1,5,7,40 nact=1"),
    "p-fault": e("poller", "parts", "depth=3 srcs=2 faults=1 bulk=3,60 acts=1,6,10 nact=1 budget=1", "depth=4 srcs=2 faults=1 bulk=3,60 acts=1,6,10 nact=1 budget=2 devper=2"),
    "p-asan": e("poller", "parts", "depth=3 srcs=2 slots=2 nact=2 " + FA, "depth=3 srcs=3 nact=2 " + FA, "asan"),
    "p-sig": e("poller", "parts", "depth=4 slots=2 srcs=1 sigs=1 ssrcs=1 masks=1,3 acts=1,6,11,13 sacts=1,6,8,9,10,11", "depth=5 slots=2 srcs=1 sigs=2 ssrcs=1 masks=1,3 rdy=9,2 acts=1,2,6,11,13 sacts=1,3,6,8,9,10,11"),
    "p-sigi": e("poller", "parts", "depth=3 slots=2 srcs=2 sigs=1 ssrcs=1 acts=1,11 sacts=6,8,9,10 inject=1 budget=1", "depth=4 slots=2 srcs=2 sigs=2 ssrcs=1 acts=1,11 sacts=6,8,9,10 inject=1 budget=2 devper=2"),
    "s-base": e("poller", "parts", "depth=4 slots=1 srcs=1 sigs=3 ssrcs=2 acts=1,11,13", "depth=6 slots=1 srcs=1 sigs=3 ssrcs=2 acts=1,11,13"),
    "s-call": e("poller", "parts", "depth=3 slots=1 srcs=1 sigs=3 ssrcs=3 acts=1,11,13 inject=1 budget=2 devper=2", "depth=4 slots=1 srcs=1 sigs=3 ssrcs=3 acts=1,11,13 inject=1 budget=3 devper=3"),
    "s-full": e("poller", "parts", "depth=4 slots=1 sigs=2 ssrcs=2 acts=1,13 inject=1 budget=3 devper=3 pipecap=1", "depth=5 slots=1 sigs=3 ssrcs=2 acts=1,13 inject=1 budget=3 devper=3 pipecap=1"),
    "s-short": e("poller", "parts", "depth=3 slots=1 srcs=1 sigs=2 ssrcs=2 acts=1 inject=1 shortio=1 budget=2 devper=2", "depth=4 slots=1 srcs=1 sigs=2 ssrcs=2 acts=1 inject=1 shortio=1 budget=3 devper=3"),
    "s-bb1": e("poller", "parts", "depth=4 slots=1 srcs=1 sigs=2 ssrcs=1 acts=11,13 inject=1 bb=1 budget=1", "depth=5 slots=1 srcs=1 sigs=3 ssrcs=2 acts=11,13 inject=1 bb=1 budget=1", "bb"),
    "s-bb2": e("poller", "parts", "depth=2 slots=1 srcs=1 sigs=3 ssrcs=2 acts=13 sacts=1,2,3,7 inject=1 bb=1 budget=2 devper=2", "depth=3 slots=1 srcs=1 sigs=3 ssrcs=2 acts=13 sacts=1,2,3,5,7 inject=1 bb=1 budget=2 devper=2", "bb"),
    "s-bb3": e("poller", "parts", "depth=2 slots=1 srcs=0 sigs=2 ssrcs=1 acts=13 sacts=1,7 inject=1 bb=1 budget=3 devper=3", "depth=2 slots=1 srcs=1 sigs=2 ssrcs=2 acts=13 sacts=1,2,7 inject=1 bb=1 budget=3 devper=3", "bb"),
    "s-asan": e("poller", "parts", "depth=3 slots=1 srcs=1 sigs=3 ssrcs=2 acts=1,13 inject=1 budget=1", "depth=4 slots=1 srcs=1 sigs=3 ssrcs=2 acts=1,13 inject=1 budget=1", "asan"),
    # libseat's seatd backend against a daemon's end held by the explorer
    "n-plain": e("lib", "libseat", "depth=12 notes=3 calls=4 call=d0,d1,d2,o0,x,X", "depth=16 notes=4 calls=6 call=d0,d1,d2,o0,x,X reply=0,1"),
    "n-frag": e("lib", "libseat", "depth=12 notes=2 calls=3 call=d0,d1,o0,X xmit=0,1,3", "depth=16 notes=3 calls=4 call=d0,d1,o0,X xmit=0,1,3"),
    "n-cb": e("lib", "libseat", "depth=9 notes=3 calls=3 call=d0,d1,o0,X en=0,2,3,6 dis=0,1,2,7 nest=2", "depth=12 notes=4 calls=3 call=d0,d1,o0,X en=0,2,3,5,6 dis=0,1,2,4,7 nest=2"),
    "n-open": e("lib", "libseat", "depth=10 preopen=0 notes=3 calls=3 call=O,d0,d1,o0,X en=0,3 dis=0,1,2 xmit=0,2", "depth=14 preopen=0 notes=4 calls=4 call=O,d0,d1,o0,X en=0,3 dis=0,1,2 xmit=0,1,2"),
    "n-inj": e("lib", "libseat", "depth=6 calls=3 notes=2 call=d0,d1,o0,c0,X en=0,3 inject=1 inj=xEDrR budget=2 devper=2 reply=0,1", "depth=8 calls=4 notes=2 call=d0,d1,o0,c0,X en=0,3 dis=0,1 inject=1 inj=xEDrR budget=2 devper=2 reply=0,1"),
    "n-fault": e("lib", "libseat", "depth=6 calls=3 notes=2 call=d0,d1,o0,c0,X en=0,3 faults=1 shortio=1 spurious=0 budget=2 devper=2 reply=0,1", "depth=9 calls=4 notes=2 call=d0,d1,o0,c0,x,X en=0,3 dis=0,1 faults=1 shortio=1 spurious=0 budget=2 devper=2 reply=0,1"),
    "n-ofault": e("lib", "libseat", "depth=7 preopen=0 calls=3 notes=2 call=O,d0,d1,o0,X en=0,3 faults=1 shortio=1 spurious=0 budget=2 devper=2 reply=0,1", "depth=10 preopen=0 calls=3 notes=2 call=O,d0,d1,o0,X en=0,3 dis=0,1 faults=1 shortio=1 spurious=0 budget=2 devper=2 reply=0,1,11"),
    "n-args": e("lib", "libseat", "depth=9 notes=2 calls=4 call=d0,o0,o1,o3,o4,o5,o6,o7,c0,c2,c5,c6,c7,s0,s2,s5,s6,s7,x,X reply=0,1,3,5", "depth=12 notes=2 calls=5 call=d0,o0,o1,o3,o4,o5,o6,o7,c0,c2,c5,c6,c7,s0,s2,s5,s6,s7,x,X reply=0,1,3,5"),
    "n-names": e("lib", "libseat", "depth=8 preopen=0 notes=1 calls=2 call=O,d0,X reply=0,1,2,3,4,5,6,10,11,12,13 xmit=0,1,5", None),
    # every error code a daemon may give as its reason
    "n-codes": e("lib", "libseat", "depth=4 notes=1 calls=2 call=d0,o0,c0,s0,x,X reply=0," + CODES, "depth=6 notes=1 calls=3 call=d0,o0,c0,s0,x,X reply=0," + CODES),
    "n-ocodes": e("lib", "libseat", "depth=4 preopen=0 notes=1 calls=2 call=O,d0,X reply=0," + CODES, "depth=6 preopen=0 notes=1 calls=2 call=O,d0,o0,X reply=0," + CODES),
    "n-sleep": e("lib", "libseat", "depth=13 notes=3 calls=5 call=d0,o0,X reply=0,1", "depth=18 notes=4 calls=7 call=d0,o0,X reply=0,1"),
    "n-sleep1": e("lib", "libseat", "depth=11 fin=1 notes=3 calls=4 call=d1,o0,s0,x reply=0,1 en=0,3 dis=0,1 xmit=0,4", "depth=15 fin=1 notes=3 calls=5 call=d1,o0,s0,x reply=0,1 en=0,3 dis=0,1 xmit=0,4"),
    "n-lost0": e("lib", "libseat", "depth=10 close=1 fin=2 notes=2 calls=3 call=d0,d1,d2,o0,x,X xmit=0,1,5 reply=0,1", "depth=14 close=1 fin=2 notes=2 calls=4 call=d0,d1,d2,o0,x,X xmit=0,1,3,5 reply=0,1"),
    "n-lost1": e("lib", "libseat", "depth=9 close=1 fin=4 notes=2 calls=3 call=d0,d1,d2,o0,x,X reply=0,1 en=0,2,3 dis=0,1", "depth=12 close=1 fin=4 notes=2 calls=4 call=d0,d1,d2,o0,x,X reply=0,1 en=0,2,3 dis=0,1"),
    "n-lost2": e("lib", "libseat", "depth=9 close=1 fin=6 notes=2 calls=3 call=d0,d1,d2,o0,x,X reply=0,1 xmit=0,2", "depth=13 close=1 fin=6 notes=2 calls=4 call=d0,d1,d2,o0,x,X reply=0,1 xmit=0,2"),
    "n-half": e("lib", "libseat", "depth=8 half=1 close=1 fin=4 notes=2 calls=2 call=d0,d1,d2,o0,X xmit=0,2 reply=0,1", "depth=12 half=1 close=1 fin=4 notes=2 calls=4 call=d0,d1,d2,o0,x,X xmit=0,2 reply=0,1"),
    "n-olost": e("lib", "libseat", "depth=10 preopen=0 close=1 fin=2 notes=2 calls=3 call=O,d0,d1,o0,X xmit=0,1,5 reply=0,1,11", "depth=14 preopen=0 close=1 fin=2 notes=2 calls=3 call=O,d0,d1,o0,X xmit=0,1,5 reply=0,1,11"),
    "n-linj": e("lib", "libseat", "depth=5 fin=2 close=1 calls=3 notes=2 call=d0,d1,o0,c0,X en=0,3 inject=1 inj=xEDrRc budget=2 devper=2 reply=0,1", "depth=7 fin=2 close=1 calls=3 notes=2 call=d0,d1,o0,c0,X en=0,3 inject=1 inj=xEDrRc budget=2 devper=2 reply=0,1"),
    "n-bad": e("lib", "libseat", "depth=8 fin=2 calls=3 notes=1 call=d0,d1,o0,c0,x,X " + BAD + " nbad=1 reply=0", "depth=10 fin=2 calls=4 notes=2 call=d0,d1,o0,c0,x,X " + BAD + " nbad=2 reply=0,1"),
    "n-badfrag": e("lib", "libseat", "depth=7 fin=2 close=1 calls=3 notes=1 call=d0,d1,o0,X xmit=0,3,250 en=0,3 " + BAD + " nbad=1 reply=0", "depth=9 fin=2 close=1 calls=3 notes=2 call=d0,d1,o0,X xmit=0,3,250 en=0,3 " + BAD + " nbad=1 reply=0,1"),
    "n-obad": e("lib", "libseat", "depth=8 preopen=0 fin=2 calls=2 notes=1 call=O,d0,o0,X " + OBAD + " nbad=1 reply=0,1 xmit=0,3,200", "depth=10 preopen=0 fin=2 calls=3 notes=2 call=O,d0,o0,X " + OBAD + " nbad=2 reply=0,1 xmit=0,3,200"),
    "n-basan": e("lib", "libseat", "depth=6 fin=2 calls=2 notes=1 call=d0,o0,c0,X " + BAD + " nbad=1 reply=0", "depth=8 fin=2 calls=3 notes=1 call=d0,d1,o0,c0,x,X " + BAD + " nbad=1 reply=0", "asan"),
    "n-oasan": e("lib", "libseat", "depth=6 preopen=0 fin=2 calls=2 notes=1 call=O,d0,X " + OBAD + " nbad=1 reply=0,1,11 xmit=0,3", "depth=8 preopen=0 fin=2 calls=2 notes=2 call=O,d0,o0,X " + OBAD + " nbad=1 reply=0,1,11 xmit=0,3", "asan"),
    "n-fasan": e("lib", "libseat", "depth=5 close=1 fin=2 calls=2 notes=2 call=d0,o0,o4,c0,X en=0,3 faults=1 shortio=1 spurious=0 budget=1 reply=0,1", "depth=7 close=1 fin=2 calls=3 notes=2 call=d0,d1,o0,o4,c0,X en=0,3 dis=0,1 faults=1 shortio=1 spurious=0 budget=2 reply=0,1", "asan"),
    # every value of one field of an answer, or of an argument
    "n-opc": e("lib", "libseat", "depth=4 notes=0 calls=1 call=d0,o0,c0,s0,x,X fin=2 sw=opc reply=0", "depth=5 notes=0 calls=1 call=d0,d1,o0,c0,s0,x,X fin=2 sw=opc reply=0,1"),
    "n-val": e("lib", "libseat", "depth=4 notes=0 calls=1 call=d0,o0,c0,s0,x,X fin=2 sw=siz,num reply=0", "depth=5 notes=1 calls=1 call=d0,o0,c0,s0,x,X fin=2 sw=siz,num reply=0 xmit=0,5"),
    "n-arg": e("lib", "libseat", "depth=4 notes=0 calls=1 call=d0 fin=2 sw=arg reply=0,1", "depth=4 notes=1 calls=2 call=d0 fin=2 sw=arg reply=0,1"),
    "n-oval": e("lib", "libseat", "depth=4 preopen=0 notes=0 calls=1 call=O fin=2 sw=opc,siz,num,nam reply=0", "depth=5 preopen=0 notes=1 calls=1 call=O fin=2 sw=opc,siz,num,nam reply=0"),
    "n-vasan": e("lib", "libseat", "depth=4 notes=0 calls=1 call=o0,c0,x,X fin=2 sw=siz,num reply=0", "depth=4 notes=0 calls=1 call=d0,o0,c0,s0,x,X fin=2 sw=siz,num reply=0", "asan"),
    "n-ovasan": e("lib", "libseat", "depth=4 preopen=0 notes=0 calls=1 call=O fin=2 sw=siz,num,nam reply=0", "depth=5 preopen=0 notes=1 calls=1 call=O fin=2 sw=siz,num,nam reply=0", "asan"),
    # the lowest descriptors are free
    "n-low": e("lib", "libseat", "depth=7 preopen=0 shut=1 close=1 fin=2 call=O,d0,d1,o0,c0,x,X reply=0,1 calls=3 notes=2", "depth=9 preopen=0 shut=3 close=1 fin=2 call=O,d0,d1,o0,c0,x,X reply=0,1 calls=4 notes=2 faults=1 budget=1"),
    "n-low1": e("lib", "libseat", "depth=6 hole=1 close=1 call=d0,o0,c0,x,X reply=0,1 calls=3 notes=2 faults=1 budget=1", "depth=8 hole=1 close=1 call=d0,o0,c0,x,X reply=0,1 calls=4 notes=2 faults=1 budget=2"),
    "n-lowp": e("lib", "libseat", "depth=6 shut=1 close=1 call=d0,o0,c0,x,X reply=0,1 calls=3 notes=2 faults=1 budget=1", "depth=8 shut=1 close=1 call=d0,o0,c0,x,X reply=0,1 calls=4 notes=2 faults=1 budget=2"),
    # which backend
    "k-all": e("backend", "libseat", "depth=6"),
    "k-fault": e("backend", "libseat", "depth=6 faults=1 budget=1", "depth=6 faults=1 budget=2 devper=2"),
    "k-noop": e("noop", "libseat", "depth=7", "depth=12"),
    "k-nshut": e("noop", "libseat", "depth=7 shut=1 faults=1 budget=1", "depth=12 shut=1 faults=1 budget=1"),
    "k-low": e("backend", "libseat", "depth=6 shut=1 faults=1 budget=1"),
    "k-nlow": e("noop", "libseat", "depth=6 low=1", "depth=12 low=1"),
    "k-nfault": e("noop", "libseat", "depth=5 faults=1 shortio=1 budget=1", "depth=8 faults=1 shortio=1 budget=2 devper=2"),
    "k-nasan": e("noop", "libseat", "depth=5 faults=1 budget=1", "depth=6 faults=1 shortio=1 budget=1", "asan"),
    # logind backend
    "g-base": e("logind", "libseat", "depth=9 lose=1 sig=0,1,5,8 calls=4 sigs=3", "depth=12 lose=1 sig=0,1,5,8 calls=6 sigs=4"),
    "g-sig": e("logind", "libseat", "depth=7 sig=0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17 calls=3 sigs=3 reply=0,1,2,8 call=d0,d1,d2", "depth=10 sig=0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17 calls=4 sigs=4 reply=0,1,2,8 call=d0,d1,d2"),
    "g-open": e("logind", "libseat", "depth=9 preopen=0 id=1 type=1 reply=0,1,2,3,8 lose=1 sig=0,1,8 fin=4", "depth=12 preopen=0 id=1 type=1 reply=0,1,2,3,8 lose=1 sig=0,1,8 sigs=3"),
    "g-open2": e("logind", "libseat", "depth=9 preopen=0 nopid=1 active=0 reply=0,1,8 lose=1 sig=0,1,8 call=d0,d1,o0,X", "depth=12 preopen=0 nopid=1 active=0 reply=0,1,8 lose=1 sig=0,1,8 call=d0,d1,o0,X"),
    "g-match": e("logind", "libseat", "depth=10 preopen=0 match=1 reply=0,1 lose=1 sig=0,1,8 call=d0,d1,X", "depth=13 preopen=0 match=1 reply=0,1 lose=1 sig=0,1,8"),
    "g-who": e("logind", "libseat", "depth=8 who=1 preopen=0 sig=0,1,8,45 call=d0,s1,o0,X reply=0 calls=3 sigs=1", "depth=9 who=1 preopen=0 type=1 sig=0,1,8,45 call=d0,s1,o0,c0,X reply=0,1 calls=3 sigs=1 faults=1 budget=1"),
    "g-near": e("logind", "libseat", "depth=6 sig=0,1,8,18,19,20,21,22,23,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45 call=d0,o0,X calls=2 sigs=2", "depth=8 sig=0,1,8,18,19,20,21,22,23,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45 call=d0,o0,X calls=2 sigs=3 shared=1"),
    "g-nodes": e("logind", "libseat", "depth=6 nodes=1 call=o5,o6,o7,c0,c1,d0,X calls=4 reply=0,1,9 sig=8", "depth=9 nodes=1 call=o5,o6,o7,o0,c0,c1,d0,X calls=5 reply=0,1,9 sig=8"),
    "g-num1": e("logind", "libseat", "depth=4 num=1 call=d0,o0 calls=1 sigs=1 sig=0", "depth=6 num=1 call=d0,o0 calls=2 sigs=1 sig=0 reply=0,1 lose=1"),
    "g-num2": e("logind", "libseat", "depth=4 num=2 call=d0,o0 calls=1 sigs=1 sig=0 reply=0,1", "depth=6 num=2 call=d0,o0 calls=2 sigs=1 sig=0,1 reply=0,1"),
    "g-low": e("logind", "libseat", "depth=7 shut=1 lose=1 faults=1 budget=1", "depth=9 shut=1 lose=1 faults=1 budget=1"),
    "g-low1": e("logind", "libseat", "depth=7 hole=1 lose=1 faults=1 budget=1", "depth=9 hole=1 lose=1 faults=1 budget=1"),
    "g-noseat": e("logind", "libseat", "depth=3 preopen=0 noseat=1"),
    "g-first": e("logind", "libseat", "depth=8 first=0 active=0 id=1 call=d0,d1,d2,o0,c0,X fin=1 lose=1", "depth=11 first=0 active=0 call=d0,d1,d2,o0,c0,X fin=1 lose=1"),
    "g-args": e("logind", "libseat", "depth=7 call=o0,o1,o2,o3,c0,c1,c7,c6,s0,s1,s2,s3,s4,d0,x,X reply=0,1,2,3,8,9 calls=3 sig=8,16,1", "depth=9 call=o0,o1,o2,o3,c0,c1,c7,c6,s0,s1,s2,s3,s4,d0,x,X reply=0,1,2,3,8,9 calls=4 sig=8,16,1"),
    "g-shared": e("logind", "libseat", "depth=8 shared=1 sig=0,1,5,8 lose=1", "depth=11 shared=1 sig=0,1,5,8 lose=1"),
    "g-oshared": e("logind", "libseat", "depth=8 shared=1 preopen=0 sig=0,1,5,8 reply=0,1,8 lose=1 faults=1 budget=1", "depth=10 shared=1 preopen=0 sig=0,1,5,8 reply=0,1,8 lose=1 faults=1 budget=2"),
    "g-nest0": e("logind", "libseat", "depth=6 first=0 en=0,1,2,3 dis=0,1,2,3 sig=0,1,8 call=d0,d1,o0 calls=3", "depth=9 first=0 active=0 en=0,1,2,3 dis=0,1,2,3 sig=0,1,8 call=d0,d1,o0 calls=4 nest=2"),
    "g-nest": e("logind", "libseat", "depth=7 en=0,1,2,3,4 dis=0,1,2,3,4 sig=0,1,5,7,8 call=d0,d1,o0 calls=3", "depth=9 en=0,1,2,3,4 dis=0,1,2,3,4 sig=0,1,5,7,8 call=d0,d1,o0 calls=4 nest=2"),
    "g-ofault": e("logind", "libseat", "depth=7 preopen=0 id=1 faults=1 budget=2 disturb=3", "depth=9 preopen=0 id=1 type=1 faults=1 budget=3 devper=2"),
    "g-fault": e("logind", "libseat", "depth=7 faults=1 budget=1 lose=1 disturb=3", "depth=8 faults=1 budget=2 lose=1 disturb=3"),
    "g-intr": e("logind", "libseat", "depth=7 shortio=1 budget=2 lose=1 calls=2", "depth=9 shortio=1 budget=2 lose=1"),
    "g-asan": e("logind", "libseat", "depth=6 faults=1 budget=1 sig=0,5,8,13", "depth=7 faults=1 budget=1 lose=1 sig=0,1,5,8,13,15", "asan"),
    "g-osasan": e("logind", "libseat", "depth=7 shared=1 preopen=0 sig=0,5,8 reply=0,1,8 faults=1 budget=1", "depth=9 shared=1 preopen=0 sig=0,1,5,8 reply=0,1,8 faults=1 budget=1", "asan"),
    # applications and the daemon together
    "e-base": e("e2e", "seatd+libseat*3", "depth=16 ndev=2", "depth=22 ndev=2 acts=4"),
    "e-now": e("e2e", "seatd+libseat*3", "depth=15 dis=1 en=1", "depth=20 dis=1 en=1 acts=4"),
    "e-mixed": e("e2e", "seatd+libseat*3", "depth=14 dis=01 en=02", "depth=20 dis=01 en=02 acts=4"),
    "e-vt": e("e2e", "seatd+libseat*3", "depth=12 vt=1 nvt=2", "depth=15 vt=1"),
    "e-vtnow": e("e2e", "seatd+libseat*3", "depth=12 vt=1 dis=1 en=1 menu=oavdskx nvt=2 vtsw=3", "depth=15 vt=1 dis=01 en=10 vtsw=3"),
    "e-three": e("e2e", "seatd+libseat*3", "apps=3 depth=11 acts=2", "apps=3 depth=15 acts=2"),
    "e-pre": e("e2e", "seatd+libseat*3", "depth=7 pre=1 inject=1 budget=2 devper=2 menu=oadcskx", "depth=9 pre=1 inject=1 budget=2 devper=2"),
    "e-pre1": e("e2e", "seatd+libseat*3", "depth=10 pre=1 inject=1 budget=1", "depth=13 pre=1 inject=1 budget=1"),
    "e-vtpre": e("e2e", "seatd+libseat*3", "depth=9 pre=1 inject=1 budget=1 vt=1 nvt=2 menu=oavdkx acts=2", "depth=11 pre=1 inject=1 budget=2 vt=1 nvt=2 menu=oavdkx acts=2"),
    "e-short": e("e2e", "seatd+libseat*3", "depth=9 shortio=1 spurious=0 budget=2 devper=2", "depth=12 shortio=1 spurious=0 budget=2 devper=2"),
    # the builtin backend
    "b-base": e("e2e", "libseat", "builtin=1 depth=18 ndev=3 acts=4", "builtin=1 depth=24 ndev=3 acts=6"),
    "b-low": e("e2e", "libseat", "builtin=1 depth=11 ndev=2 vt=1 shut=1", "builtin=1 depth=14 ndev=2 vt=1 shut=3 faults=1 budget=1"),
    "b-low3": e("e2e", "libseat", "builtin=1 depth=8 vt=1 shut=3 faults=1 budget=1", "builtin=1 depth=10 vt=1 shut=3 faults=1 budget=2 devper=2"),
    "b-term": e("e2e", "libseat", "builtin=1 depth=12 vt=1 menu=oadcskvtx ndev=2 pre=1 inject=1 budget=1", "builtin=1 depth=15 vt=1 menu=oadcskvtx ndev=2 pre=1 inject=1 budget=2 devper=2"),
    "b-vt": e("e2e", "libseat", "builtin=1 depth=16 vt=1", "builtin=1 depth=20 vt=1 ndev=2 acts=4 vtsw=3"),
    "b-vtnow": e("e2e", "libseat", "builtin=1 depth=16 vt=1 dis=1 en=1", "builtin=1 depth=20 vt=1 dis=1 en=2 acts=4 vtsw=3"),
    "b-pre": e("e2e", "libseat", "builtin=1 depth=8 pre=1 inject=1 budget=2 devper=2 vt=1", "builtin=1 depth=11 pre=1 inject=1 budget=3 devper=2 vt=1"),
    "b-short": e("e2e", "libseat", "builtin=1 depth=9 shortio=1 spurious=0 budget=2 devper=2 vt=1", "builtin=1 depth=13 shortio=1 spurious=0 budget=2 devper=2 vt=1"),
    "b-fault": e("e2e", "libseat", "builtin=1 depth=9 faults=1 pre=1 inject=1 budget=2 devper=2", "builtin=1 depth=12 faults=1 pre=1 inject=1 budget=2 devper=2"),
    "b-vtfault": e("e2e", "libseat", "builtin=1 depth=9 faults=1 budget=1 vt=1", "builtin=1 depth=11 faults=1 budget=2 devper=2 vt=1"),
    # starting the daemon
    "z-opts": e("start", "seatd", "depth=3 opts=3 umasks=3", "depth=4 opts=4 umasks=3"),
    "z-vt": e("start", "seatd", "depth=3 opts=2 vt=1"),
    "z-low": e("start", "seatd", "depth=3 opts=2 shut=1 faults=1 budget=1", "depth=3 opts=3 shut=1 faults=1 budget=1"),
    "z-low3": e("start", "seatd", "depth=3 opts=2 valid=1 vt=1 shut=3 faults=1 budget=1", "depth=3 opts=3 valid=1 vt=1 shut=3 faults=1 budget=2 devper=2"),
    "z-fd0": e("start", "seatd", "depth=3 opts=2 rfd=0", "depth=3 opts=3 rfd=0"),
    "z-fault": e("start", "seatd", "depth=3 opts=3 valid=1 faults=1 budget=2 devper=2", "depth=3 opts=4 valid=1 faults=1 budget=3 devper=3"),
    "z-inj": e("start", "seatd", "depth=3 opts=2 valid=1 inject=1 rival=1 sig=1 budget=2 devper=2", "depth=3 opts=3 valid=1 inject=1 rival=1 sig=1 faults=1 budget=3 devper=3"),
    "z-noread": e("start", "seatd", "depth=3 opts=2 valid=1 reader=0 inject=1 sig=1 faults=1 budget=1", "depth=3 opts=3 valid=1 reader=0 inject=1 sig=1 faults=1 budget=2 devper=2"),
    "z-asan": e("start", "seatd", "depth=3 opts=2 faults=1 budget=1", "depth=3 opts=3 faults=1 budget=1", "asan"),
    # the number of devices
    "m-one": e("limit", "seatd", "depth=3 nc=1", "depth=5 nc=1"),
    "m-two": e("limit", "seatd", "depth=4 nc=2 min=124 min2=126", "depth=5 nc=2 min=100 min2=126"),
    "m-asan": e("limit", "seatd", "depth=3 nc=1 min=125", "depth=4 nc=1 min=125", "asan"),
    # the same history, delivered otherwise
    "f-one": e("twin", "seatd", "depth=7 nc=1 menu=conn,disc,open,close,dis,ping,dev:0,dev:2,cdev,cdevx,sw,swx", "depth=9 nc=1 pairs=2 menu=conn,disc,open,close,dis,ping,dev:0,dev:2,cdev,cdevx,sw,swx"),
    "f-two": e("twin", "seatd", "depth=9 polite=1 nc=2 menu=conn,disc,open,close,dis,dev:0,dev:2,cdev,sw,ping", "depth=12 polite=1 nc=3 early=4 menu=conn,disc,open,close,dis,dev:0,dev:2,cdev,sw,ping"),
    "f-vt": e("twin", "seatd", "depth=8 pre=0d1 vt=1 polite=1 nc=2 menu=disc,dis,dev:0,dev:2,cdev,sw,vt,close,open", "depth=11 pre=0d1 vt=1 polite=1 nc=3 early=3 menu=conn,disc,dis,dev:0,dev:2,cdev,sw,vt,close,open"),
    "f-raw": e("twin", "seatd", "depth=3 nc=1 pairs=0 pre=0d menu=ping,dev:0,raw", "depth=5 nc=1 pairs=0 pre=0d menu=ping,dev:0,cdev,raw"),
    "f-pairs": e("twin", "seatd", "depth=5 pairs=2 pre=0d nc=1 menu=dev:0,dev:1,dev:5,cdev,cdevx,swx", "depth=6 pairs=2 pre=0d1 nc=2 menu=dev:0,dev:1,dev:5,cdev,cdevx,sw,swx"),
    "f-sweep": e("sweep", "seatd", "depth=12", "depth=16 every=1 ring=1024"),
    "f-sweep2": e("sweep", "seatd", "depth=12 pairs=1 multi=0", "depth=16 pairs=4"),
    "f-swasan": e("sweep", "seatd", "depth=12 multi=1 bytes=0 ring=64", "depth=12 ring=512", "asan"),
    # logging
    "g-log": e("log", "parts", "depth=8"),
    "g-logerr": e("log", "parts", "depth=8 disturb=11"),
    "g-d0": e("twin", "seatd", "mode=log depth=6 nc=2 menu=conn,disc,open,close,dis,dev:0,dev:2,dev:3,dev:4,cdev,cdevx,sw,swx,ping", "mode=log depth=8 nc=3 menu=conn,disc,open,close,dis,dev:0,dev:2,cdev,cdevx,sw,swx,ping"),
    "g-d1": e("twin", "seatd", "mode=log depth=6 pre=0d1 vt=1 nc=2 menu=conn,disc,open,close,dis,dev:0,dev:2,cdev,cdevx,sw,vt", "mode=log depth=8 pre=0d1 vt=1 nc=3 menu=conn,disc,open,close,dis,dev:0,dev:2,cdev,cdevx,sw,vt"),
    "g-draw": e("twin", "seatd", "mode=log depth=4 nc=2 menu=conn,open,dev:0,raw,fds", "mode=log depth=5 nc=2 menu=conn,disc,open,dev:0,raw,fds"),
    "g-app": e("e2etwin", "seatd+libseat*3", "depth=11 apps=2 ndev=2", "depth=14 apps=3 ndev=2"),
    "g-appvt": e("e2etwin", "seatd+libseat*3", "depth=9 apps=2 vt=1 ndev=2 dis=01", "depth=11 apps=2 vt=1 ndev=2 dis=01"),
    "g-builtin": e("e2etwin", "libseat", "builtin=1 depth=12 vt=1 ndev=2", "builtin=1 depth=15 vt=1 ndev=2"),
    # seatd-launch
    "y-all": e("launch", "launch", "depth=14"),
    "y-codes": e("launch", "launch", "depth=12 codes=all use=1"),
    "y-f7": e("launch", "launch", "depth=12 fds=7", "depth=12 fds=7 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-f97": e("launch", "launch", "depth=12 fds=97", "depth=12 fds=97 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-f200": e("launch", "launch", "depth=12 fds=200", "depth=12 fds=200 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-s1": e("launch", "launch", "depth=12 shut=1", "depth=12 shut=1 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-s2": e("launch", "launch", "depth=12 shut=2", "depth=12 shut=2 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-s3": e("launch", "launch", "depth=12 shut=3", "depth=12 shut=3 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-u1": e("launch", "launch", "depth=12 uid=70000 gid=65537", "depth=12 uid=70000 gid=65537 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-u2": e("launch", "launch", "depth=12 uid=1000 gid=0", "depth=12 uid=1000 gid=0 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-u3": e("launch", "launch", "depth=12 uid=0 gid=100", "depth=12 uid=0 gid=100 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-u4": e("launch", "launch", "depth=12 uid=65536 gid=131072", "depth=12 uid=65536 gid=131072 use=0 faults=1 shortio=1 inject=1 budget=2 devper=2"),
    "y-setgid": e("launch", "launch", "depth=12 setgid=1"),
    "y-root": e("launch", "launch", "depth=12 uid=0 gid=0 use=0"),
    "y-inj": e("launch", "launch", "depth=12 use=0 inject=1 budget=3 devper=3", "depth=14 use=0 inject=1 budget=4 devper=4"),
    "y-fault": e("launch", "launch", "depth=12 use=1 faults=1 shortio=1 inject=1 budget=3 devper=3", "depth=14 use=1 faults=1 shortio=1 inject=1 budget=4 devper=4"),
    "y-fsetgid": e("launch", "launch", "depth=12 setgid=1 use=0 faults=1 shortio=1 budget=3 devper=3", "depth=14 setgid=1 use=0 faults=1 shortio=1 budget=4 devper=4"),
    "y-nosock": e("launch", "launch", "depth=12 use=0 nosock=1 inject=1 budget=2 devper=2"),
    "y-pre": e("launch", "launch", "depth=9 use=0 pre=1 inject=1 budget=2 devper=2"),
    "y-noseatd": e("launch", "launch", "depth=9 use=0 noseatd=1 inject=1 shortio=1 budget=2 devper=2"),
    "y-nocmd": e("launch", "launch", "depth=12 use=0 nocmd=1 faults=1 inject=1 budget=2 devper=2"),
    "y-asan": e("launch", "launch", "depth=4 nofork=1 faults=1 budget=1", "depth=4 nofork=1 faults=1 budget=2", "asan"),
    # lists
    "l-all": e("list", "parts", "depth=30", "depth=40 heads=2 elems=5"),
    "l-three": e("list", "parts", "depth=40 heads=3 elems=4", "depth=40 heads=3 elems=5"),
    "l-asan": e("list", "parts", "depth=30", "depth=30", "asan"),
}
PLAN = {
    "T01": "c-bytes c-both c-wrap c-small c-tiny c-fault c-sweep c-asan c-wrapasan",
    "T02": "d-fds d-both d-surplus d-mix d-fault d-small d-wrap c-wrapasan",
    "L01": "n-plain n-sleep n-frag n-cb n-open n-inj n-fault n-sleep1 n-lost1",
    "L02": "n-codes n-ocodes n-plain n-frag n-cb n-open n-inj n-fault n-ofault n-args n-names n-olost n-linj n-val n-arg n-oval n-low n-low1 n-lowp",
    "L03": "n-sleep n-sleep1 n-frag n-cb n-open n-inj n-plain",
    "L04": "n-lost0 n-lost1 n-lost2 n-half n-olost n-linj n-fault n-ofault n-bad n-badfrag n-obad n-basan n-oasan n-fasan n-cb n-opc n-val n-arg n-oval n-vasan n-ovasan n-low n-low1 n-lowp",
    "L06": "k-all k-fault k-low",
    "L07": "k-noop k-nlow k-nfault k-nasan k-nshut",
    "C19": "b-base b-term b-vt b-vtnow b-pre b-short b-fault b-vtfault b-low b-low3",
    "L05": "e-base e-now e-mixed e-vt e-vtnow e-three e-pre e-pre1 e-vtpre e-short",
    "C18": "z-opts z-vt z-fd0 z-fault z-inj z-noread z-asan z-low z-low3",
    "L08": "g-base g-sig g-open g-open2 g-noseat g-first g-args g-shared g-oshared g-nest g-nest0 g-match g-ofault g-fault g-intr g-asan g-osasan g-who g-near g-nodes g-num1 g-num2 g-low g-low1",
    "L09": "n-plain n-open n-inj n-fault n-ofault n-bad k-all k-fault k-noop k-nfault g-base g-open g-args g-shared g-oshared g-fault g-ofault n-low g-low k-nshut",
    "C07": "f-one f-two f-vt f-raw f-pairs f-sweep f-sweep2 f-swasan",
    "G01": "g-log g-logerr g-d0 g-d1 g-draw g-app g-appvt g-builtin",
    "X01": "y-all y-codes y-setgid y-root y-inj y-fault y-fsetgid y-nosock y-pre y-noseatd y-nocmd y-asan y-f7 y-f97 y-f200 y-s1 y-s2 y-s3 y-u1 y-u2 y-u3 y-u4",
    "X02": "y-all y-codes y-setgid y-root y-inj y-fault y-fsetgid y-nosock y-pre y-noseatd y-nocmd y-asan",
    "P01": "p-act p-act3 p-two p-ev1 p-ev2 p-many p-fault p-sig p-sigi p-asan",
    "P02": "p-sig p-sigi s-base s-call s-full s-short s-bb1 s-bb2 s-bb3 s-asan",
    "P03": "l-all l-three l-asan",
}
TECH = {}


def entry(n, tier):
    scn, kind, variant, q, t = M[n]
    return (n, scn, kind, variant, dict(x.split("=", 1) for x in (q if tier == "quick" else t).split()))


def plan(prop, tier):
    return [entry(n, tier) for n in PLAN[prop].split()]


def props():
    return sorted(PLAN)
