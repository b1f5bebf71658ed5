"""Scripts for RingBufferGuarded: concurrent ones (h_ring) and sequential ones for both rings (h_rseq)."""
import random

def S(script, props, **kw):
    d = dict(comp="ring", exe="h_ring", script=script, props=set(props.split()), bound=2, maxexec=1500, random=300)
    d.update(kw)
    return d

END = "W abort W flush destroy"

def scenarios(tier, seed):
    L = []
    P = "C08 C09"
    L += [
        S("cap=1 | %s | put:1 put:2 | get get" % END, P, bound=3, maxexec=3000),
        S("cap=1 | %s | put:1 put:2 | put:3 | get get get" % END, P),
        S("cap=2 | %s | put:1 put:2 put:3 | get | get" % END, P),
        S("cap=2 | %s | put:1 | put:2 | put:3 | get get get" % END, P),
        S("cap=3 | %s | put:1 put:2 | put:3 put:4 | get get" % END, P),
        S("cap=1 | %s | get | get | put:1 put:2" % END, P, bound=3, maxexec=3000),
        S("cap=1 | %s | get get | get | put:1 | put:2 put:3" % END, P),
        S("cap=2 | %s | put:1 put:2 put:3 put:4 put:5 | get get get get" % END, P),
        S("cap=3 | put:90 put:91 put:92 get get put:93 put:94 %s | put:1 get | get put:2 | get" % END, P),
        S("cap=5 | put:90 put:91 put:92 put:93 put:94 %s | put:1 | get | put:2 get" % END, P),
        S("cap=3 | put:90 put:91 put:92 W get W get W get W get W %s | put:1 put:2 | put:3" % END, P),
        S("cap=1 | W put:7 W put:8 W %s | get | get | get" % END, P),
        S("cap=4 | %s | put:1 put:2 put:3 put:4 put:5 | put:6 | get" % END, P),
        S("cap=6 | %s | put:1 put:2 put:3 put:4 put:5 put:6 put:7 | get get" % END, P, bound=1, maxexec=800),
        S("cap=1 spur=1 | %s | put:1 put:2 | get get | get" % END, P),
        S("cap=2 spur=1 | %s | put:1 put:2 put:3 | put:4 | get get" % END, P),
        S("cap=1 prime=1 | prime:50 %s | put:1 | get get | get" % END, P + " C10"),
        S("cap=3 prime=1 | prime:50 %s | put:1 | get get | get" % END, P + " C10"),
    ]
    for ty in ["u8", "i64", "dbl", "vptr", "ptr", "cptr", "u16"]:
        L.append(S("cap=2 type=%s | %s | put:1 put:2 | get put:3 | get" % (ty, END), P, maxexec=800, random=100))
        L.append(S("cap=3 type=%s prime=1 | prime:40 %s | put:1 get | get put:3 | get get" % (ty, END), P + " C10", maxexec=800, random=100))
        L.append(S("cap=3 type=%s | put:4 put:5 put:6 get put:7 W abort put:8 get flush flush destroy | get put:1 " % ty, "C10 C08", maxexec=200, random=50))
    # --- life cycle
    C = "C10"
    for cap in (1, 2, 3, 5):
        L += [
            S("cap=%d prime=1 | get put:5 flush prime:20 prime:30 get W put:7 abort put:9 get prime:40 flush flush destroy | Y" % cap, C, maxexec=300, random=50),
            S("cap=%d | prime:20 flush put:1 prime:30 get abort put:9 get prime:40 flush put:3 flush destroy | Y" % cap, C, maxexec=300, random=50),
            S("cap=%d prime=1 | abort flush prime:10 put:1 get flush destroy | Y" % cap, C, maxexec=100, random=20),
            S("cap=%d prime=1 | prime:10 abort flush flush destroy | Y" % cap, C, maxexec=100, random=20),
            S("cap=%d explicit=1 | prime:10 put:4 abort flush flush destroy | Y" % cap, C, maxexec=100, random=20),
        ]
    L += [
        S("cap=3 prime=1 | W abort W get put:1 flush destroy | prime:10 get | abort", C),
        S("cap=3 prime=1 | W abort W flush destroy | prime:10 | abort prime:30", C),
        S("cap=3 prime=1 | W abort W flush flush destroy | prime:10 | abort put:1 get", C + " C09"),
        S("cap=2 prime=1 | W abort W flush destroy | prime:10 | get get | put:1", C + " C08"),
        S("cap=2 prime=1 | W abort W flush destroy | prime:10 get | put:1 | get | abort", C + " C09"),
        S("cap=5 prime=1 | W abort W flush destroy | prime:10 | get put:9 | abort abort", C),
        S("cap=2 | W abort put:9 get W flush destroy | put:1 put:2 put:3 | get | abort", C + " C09"),
        S("cap=2 | W abort W flush destroy | put:1 get | put:2 | get get | abort flush", C + " C09"),
        S("cap=1 | W abort W flush destroy | put:1 put:2 | put:3 | abort", C + " C09"),
        S("cap=1 | W abort W flush destroy | get get | get | abort | put:1", C + " C09"),
        S("cap=1 | W abort W flush destroy | get | get | get | abort", C + " C09"),
        S("cap=1 | put:9 W abort W flush destroy | put:1 | put:2 | put:3 | abort", C + " C09"),
        S("cap=3 spur=1 | W abort W flush flush destroy | put:1 get get | abort | get", C + " C09"),
        S("cap=2 | W destroy | get | get", C + " C09"),
        S("cap=1 | put:4 W destroy | put:1 | put:2", C + " C09"),
        S("cap=2 | put:4 put:5 flush W flush destroy | Y abort put:1 get", C),
    ]
    rnd = random.Random(seed * 11 + 3)
    n = 60 if tier == "quick" else 500
    for i in range(n):
        cap = rnd.choice([1, 1, 2, 2, 3, 3, 4, 5])
        nt = rnd.choice([2, 3, 3, 4])
        prime = rnd.random() < 0.25
        v = 1
        pre = "prime:60 " if prime and rnd.random() < 0.7 else ""
        primes = 1 if pre else 0        # prime is not meant to be called by two threads at a time
        thr = []
        for t in range(nt):
            o = []
            for k in range(rnd.randint(1, 4 if nt < 4 else 3)):
                x = rnd.random()
                if x < 0.45:
                    o.append("put:%d" % v); v += 1
                elif x < 0.90:
                    o.append("get")
                elif x < 0.94:
                    o.append("abort")
                elif x < 0.97 and not primes:
                    o.append("prime:%d" % (100 + 20 * v)); primes = 1
                else:
                    o.append("get")
            thr.append(" ".join(o))
        L.append(S("cap=%d%s%s%s | %s%s | %s" % (cap, " prime=1" if prime else "", " spur=1" if rnd.random() < 0.2 else "",
                                                 rnd.choice(["", "", " type=ptr", " type=u8", " type=dbl"]), pre, END, " | ".join(thr)),
                   "C08 C09 C10", maxexec=150 if tier == "quick" else 1200, random=80 if tier == "quick" else 600))
    if tier == "thorough":
        for s in L:
            s["bound"] += 1; s["maxexec"] *= 6; s["random"] *= 6
    return L

def Q(script, props, own="C07", **kw):
    d = dict(comp="rseq", exe="h_rseq", script=script, props=set(props.split()), bound=0, maxexec=1, random=0, own=own)
    d.update(kw)
    return d

def seq_scenarios(tier, seed):
    L = []
    def long(script, props, own="C07"):    # plain build, full speed
        return Q(script, props, own=own, exe="p_rseq", maxexec=1000 if "thru" in script else 1)
    A = "fill fill g:1 p:2 drain drain cyc:5 p:1 g:2 fill g:3 fill drain g:1"
    top = 520 if tier == "quick" else 4200
    for n in range(0, top):
        L.append(Q("ring=simple size=%d | %s" % (n, A), "C07"))
    k = 9
    while k <= 24:
        for d in (-1, 0, 1):
            n = (1 << k) + d
            if n >= top:
                L.append((Q if n < 5000 else long)("ring=simple size=%d | fill p:2 g:2 fill drain g:2 p:3 g:4" % n, "C07"))
        k += 1
    for n in [3000000, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 3, 2**32 + 64, 2**33, 2**40 + 5, 2**63, 2**64 - 1, 700000, 99999, 12345]:
        L.append(long("ring=simple size=%d | fill p:2 g:2 fill drain g:2 p:3 g:4" % n, "C07", "C07"))
    for ty in ["u8", "u16", "i64", "dbl", "flt", "vptr", "ptr", "cptr", "enum", "bool"]:
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100, 257, 1000, 1 << 15]:
            L.append(Q("ring=simple type=%s size=%d | %s" % (ty, n, A), "C07"))
    rnd = random.Random(seed * 13 + 5)
    for i in range(300 if tier == "quick" else 3000):
        n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 33])
        ops = []
        for k in range(rnd.randint(10, 40)):
            ops.append(rnd.choice(["p:1", "g:1", "p:%d" % rnd.randint(1, n + 2), "g:%d" % rnd.randint(1, n + 2), "fill", "drain", "cyc:%d" % rnd.randint(1, 2 * n + 2)]))
        L.append(Q("ring=simple size=%d type=%s | %s" % (n, rnd.choice(["int", "u8", "i64", "ptr", "cptr", "dbl"]), " ".join(ops)), "C07"))
    # --- guarded, one thread: exact capacity for every size, life cycle for every size
    G = "C08 C10"
    top = 300 if tier == "quick" else 2200
    sizes = list(range(1, top)) + [n for k in range(9, 21) for n in ((1 << k) - 1, 1 << k, (1 << k) + 1) if top <= n <= 1 << 20]
    for n in sizes:
        big = n > 3000
        Qx = (lambda sc, pr, own: long(sc, pr, own)) if big else Q
        ty = ["int", "ptr", "i64", "cptr", "u16"][n % 5]
        L.append(Qx("ring=guarded type=%s size=%d | p:%d g:%d p:%d g:1 p:1 g:%d g:1" % (ty, n, n, n // 2, n // 2, n - 1 if big else n), G, own="C08"))
        L.append(Qx("ring=guarded type=%s size=%d | p:%d g:%d p:%d abort p:2 g:2 flush flush" % (ty, n, n, n // 3, max(0, n // 3 - 1)), G, own="C08 C10"))
        if not big:
            L.append(Q("ring=guarded type=%s size=%d | p:%d p:1" % (ty, n, n), G, own="C08"))
        L.append(Qx("ring=guarded type=%s size=%d prime=1 | p:1 g:1 flush prime prime g:%d p:1 abort p:1 g:1 flush flush prime" % (ty, n, (n + 1) // 2), G, own="C10"))
        if not big and (n % 7 == 0 or n < 20):
            L.append(Qx("ring=guarded type=%s size=%d prime=1 | prime p:1" % (ty, n), G, own="C10 C08"))
            L.append(Qx("ring=guarded type=%s size=%d prime=1 | prime g:%d g:1" % (ty, n, n), G, own="C10 C08"))
            L.append(Qx("ring=guarded type=%s size=%d prime=1 | abort prime flush flush g:1 p:1" % (ty, n), G, own="C10"))
    # --- beyond 2^32 operations
    L.append(long("ring=simple type=int size=4 | p:3 g:1 p:2 drain thru:1500000000:3 p:4 p:1 g:5 fill drain", "C07", "C07"))
    L.append(long("ring=simple type=u8 size=2 | thru:4294967290:1 p:1 g:1 p:1 g:1 p:1 g:1 p:2 g:1 p:1 g:1 p:1 g:2 p:1 g:1 fill p:1 drain g:1", "C07", "C07"))
    L.append(long("ring=simple type=ptr size=1000 | thru:4294967:1000 cyc:600 fill p:1 drain g:1 fill g:500 p:500 p:1 drain", "C07", "C07"))
    if tier == "thorough":
        for n in (1, 2, 3, 5, 8, 17, 100, 65536, 1000000):
            b = min(n, 1000000) if n > 1 else 2
            L.append(long("ring=simple type=i64 size=%d | thru:%d:%d thru:%d:1 fill p:1 g:3 p:3 p:1 drain g:1 fill drain" % (n, (1 << 32) // b - 3, b, 4 * b + 40), "C07", "C07"))
        L.append(long("ring=guarded type=int size=3 | thru:1431655800:3 p:3 g:1 p:1 g:3 abort flush", "C08", "C08"))
    return L
