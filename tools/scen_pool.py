"""Scripts for ObjectPool and BlockPool (h_pool)."""
import random

def S(script, props, **kw):
    d = dict(comp="pool", exe="h_pool", script=script, props=set(props.split()), bound=2, maxexec=1200, random=250)
    d.update(kw)
    return d

def Q(script, props, **kw):     # one thread
    return S(script, props, bound=0, maxexec=1, random=0, **kw)

END = "W drain st fill:%s:0 st drain st"
ALL = "C11 C12 C13 C14"
PLAIN = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 33, 47, 100]
CLS = [1, 3, 4, 7, 8, 12, 17]
SCAL = {"u8": 1, "u16": 2, "int": 4, "i64": 8, "dbl": 8, "ptr": 8}

def scenarios(tier, seed):
    L = []
    rnd = random.Random(seed * 17 + 7)
    # --- every element size, every block shape: exhaustion, reuse, contents
    for n in PLAIN:
        for mn in [None, 0, n + 1, n + 5, 64]:
            for size in ([1, 3] if mn is None else [2]):
                L.append(Q("kind=plain n=%d size=%d%s | st fill:50:0 st k:0 k:1 d:0 st n:50:0 k:1 n:50:60:1 d:1 n:50:61:1 st drain st fill:50:0 drain st" % (n, size, "" if mn is None else " min=%d" % mn), ALL))
    for ty, es in list(SCAL.items()) + [("cls", None), ("tcls", None), ("vcls", None)]:
        for n in ([0] if ty in SCAL or ty == "vcls" else CLS):
            for epb in [1, 2, 3, 4, 5, 7, 8, 9, 13, 33]:
                thr = " b:62:1 b:63:2 b:64:%d b:65:1 st" % epb if ty in ("tcls", "vcls") else ""
                L.append(Q("kind=blk type=%s n=%d epb=%d size=%d | st fill:101:0 st k:0 k:1 d:0 st b:0 k:1 d:1%s b:1 st s:0 c:0:70 d:0 k:70 d:70 drain st fill:101:0 drain st" % (ty, n, epb, 1 + epb % 4, thr), ALL))
    # --- pool sizes
    for n in list(range(0, 40)) + [63, 64]:
        L.append(Q("kind=plain n=%d size=%d | st fill:50:0 st drain:0:9 st fill:50:0 drain st" % (rnd.choice([4, 8, 12, 16, 3]), n), ALL))
        L.append(Q("kind=obj min=64 size=%d | st fill:2:0 st drain:3:7 fill:1:0 drain st" % n, ALL))
    for n in [65, 127, 128, 129, 1000, 4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, 2 ** 32 + 1, 2 ** 63]:
        L.append(Q("kind=plain n=8 size=%d | st n:50:0 st n:50:1 d:0 st drain st" % n, "C12 C14"))
    # --- types: every type in a roomy pool, in tight ones; too large ones
    for mn in [None, 0, 1, 24, 25, 32, 56, 57, 64, 65, 72, 73, 80, 400]:
        p = "kind=obj size=4%s" % ("" if mn is None else " min=%d" % mn)
        L.append(Q("%s | n:0:0 n:1:1 n:2:2 n:3:3 n:4:4 n:5:5 n:6:6 st k:0 k:1 k:2 k:3 k:4 k:5 d:0 d:1:2 d:2:3 d:3:4 d:4:5 d:5 d:6 st n:6:0 n:5:1 n:4:2 n:3:3:1 n:2:4 n:1:5 n:0:6 st drain st" % p, ALL))
        for ty in range(7):
            L.append(Q("%s | fill:%d:0 st r:0:%d r:1:%d d:2 r:0:%d k:0 s:1 c:1:20 d:1 d:20 m:0:30 k:30 r:30:%d n:%d:2 st drain:0:79 st fill:%d:0 fill:0:40 drain st" % (p, ty, ty, 0, 1, ty, ty, ty), ALL))
    # --- concurrency
    o = "kind=obj min=72 size=%d"
    L += [
        S((o + " | %s | n:1:0 d:0 | n:2:1 d:1 | n:0:2 d:2") % (2, END % 1), ALL),
        S((o + " | %s | n:1:0 | n:2:1 | n:0:2") % (2, END % 1), ALL),
        S((o + " | n:1:0 n:1:1 %s | d:0 n:2:2 | d:1 n:4:3 | st st") % (2, END % 1), ALL),
        S((o + " | n:1:0 n:4:1 %s | d:0 | n:2:2 | st st") % (2, END % 1), ALL, bound=3, maxexec=2500),
        S((o + " | n:1:0 n:4:1 %s | d:0 | d:1 n:2:2 | n:1:3 st | st") % (2, END % 1), ALL),
        S((o + " | n:1:0 n:4:1 n:5:2 %s | d:0 n:3:5:1 | d:1 n:3:6:1 | n:1:3 n:2:4 st") % (4, END % 1), ALL),
        S((o + " | n:3:0:1 %s | n:3:1:1 n:3:2:1 | n:3:3:1 n:1:4 | st n:1:5 st") % (2, END % 1), ALL),
        S((o + " | n:1:0 s:0 c:0:1 c:0:2 %s | d:0 | d:1 | d:2 | n:2:5 st") % (2, END % 1), ALL),
        S((o + " | n:4:0 s:0 c:0:1 %s | d:0 | d:1 | n:4:4 k:4 d:4 st") % (2, END % 4), ALL),
        S((o + " | n:1:0 n:1:1 n:1:2 n:1:3 %s | d:0:1 d:1:2 | d:2:3 d:3:4 | n:1:5 n:1:6 | st st st") % (4, END % 1), ALL),
        S((o + " | n:6:9 %s | n:6:0 n:1:1 st | n:6:2 n:1:3 | n:6:4 st") % (2, END % 1), ALL),
        S((o + " | %s | n:1:0 k:0 d:0 n:2:0 d:0 | n:2:1 k:1 d:1 n:1:1 d:1 | st st st") % (2, END % 1), ALL),
        S((o + " casf=2 | n:1:0 %s | d:0 n:1:1 | n:1:2 d:2 | st st") % (2, END % 1), ALL),
        S((o + " | n:1:0 n:1:1 %s | d:0 d:1 | n:1:2 n:1:3 | n:1:4 n:1:5 | st st st") % (2, END % 1), ALL, random=500),
    ]
    for n in (3, 8, 12, 17):
        p = "kind=plain n=%d size=2" % n
        L += [
            S((p + " | n:50:9 %s | n:50:0 k:0 d:0 | n:50:1 k:1 d:1 | d:9 n:50:9 st") % (END % 50), ALL, maxexec=800),
            S((p + " | n:50:9 n:50:8 %s | d:9 n:50:0 k:0 | k:8 d:8 n:50:1 k:1 | n:50:2:1 n:50:3") % (END % 50), ALL, maxexec=800),
        ]
    for ty, n, epb in [("u8", 0, 3), ("u8", 0, 8), ("int", 0, 3), ("i64", 0, 2), ("ptr", 0, 4), ("cls", 3, 3), ("cls", 8, 2), ("tcls", 4, 3), ("tcls", 17, 2), ("vcls", 0, 2)]:
        p = "kind=blk type=%s n=%d epb=%d size=2" % (ty, n, epb)
        L += [
            S((p + " | b:9 %s | b:0 k:0 d:0 | b:1 k:1 d:1 | d:9 b:9 st") % (END % 101), ALL, maxexec=600, random=120),
            S((p + " | b:9 b:8 s:8 c:8:7 %s | d:9 b:0 k:0 st | k:8 d:8 b:1 k:1 | d:7 b:2 st") % (END % 101), ALL, maxexec=600, random=120),
        ]
        if ty in ("tcls", "vcls"):
            L.append(S((p + " | b:9 %s | b:0:1 b:1:2 | d:9 b:2:%d b:3 | b:4:1 st") % (END % 101, epb), ALL, maxexec=600, random=120))
    # --- random programs
    n = 70 if tier == "quick" else 700
    for i in range(n):
        kind = rnd.choice(["obj", "obj", "plain", "blk"])
        size = rnd.choice([1, 2, 2, 2, 3, 4])
        if kind == "obj":
            cfg = "kind=obj size=%d min=%d" % (size, rnd.choice([24, 32, 56, 64, 72, 80, 400]))
            new = lambda s: rnd.choice(["n:%d:%d" % (rnd.randint(0, 6), s)] * 4 + ["n:3:%d:1" % s]); fin = END % 0
        elif kind == "plain":
            cfg = "kind=plain size=%d n=%d" % (size, rnd.choice(PLAIN))
            new = lambda s: rnd.choice(["n:50:%d" % s] * 5 + ["n:50:%d:1" % s]); fin = END % 50
        else:
            ty = rnd.choice(list(SCAL) + ["cls", "tcls", "tcls", "vcls"])
            epb = rnd.choice([1, 2, 3, 5])
            cfg = "kind=blk size=%d type=%s n=%d epb=%d" % (size, ty, rnd.choice(CLS) if ty in ("cls", "tcls") else 0, epb)
            new = lambda s: rnd.choice(["b:%d" % s] * 5 + (["b:%d:%d" % (s, rnd.randint(1, epb))] if ty in ("tcls", "vcls") else [])); fin = END % 101
        def prog(k):
            o = []
            for _ in range(k):
                s = rnd.randint(0, 3)
                o.append(rnd.choice([new(s)] * 6 + ["d:%d:%d" % (s, rnd.randint(0, 5))] * 4 + ["k:%d" % s, "s:%d" % s, "c:%d:%d" % (s, rnd.randint(0, 3)), "m:%d:%d" % (s, (s + 1) % 4), "st", "st"]))
            return " ".join(o)
        nt = rnd.choice([2, 3, 3])
        L.append(S("%s%s | %s %s | %s" % (cfg, " casf=1" if rnd.random() < 0.3 else "", prog(rnd.randint(0, 4)), fin, " | ".join(prog(rnd.randint(2, 5)) for _ in range(nt))),
                   ALL, maxexec=120 if tier == "quick" else 1000, random=80 if tier == "quick" else 600))
        L.append(Q("%s | %s %s" % (cfg, prog(40), fin), ALL))
    if tier == "thorough":
        for s in L:
            if s["random"]:
                s["bound"] += 1; s["maxexec"] *= 6; s["random"] *= 6
    return L
