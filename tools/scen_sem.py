"""Scripts for Semaphore. Main thread script comes first; W waits for quiescence (logging who is stuck)."""
import random

BIG = 2 ** 32
def S(script, props, **kw):
    d = dict(comp="sem", exe="h_sem", script=script, props=set(props.split()), bound=2, maxexec=1500, random=300)
    d.update(kw)
    return d

END = "W count abort W count destroy"

def scenarios(tier, seed):
    L = []
    # --- counting, contention
    L += [
        S("init=1 max=0 | %s | take give | take give | take give" % END, "C01 C02"),
        S("init=0 max=0 | %s | take take | give | give" % END, "C01 C02"),
        S("init=2 max=2 | %s | take | give | give take" % END, "C01 C02"),
        S("init=0 max=1 | %s | give give | take | take" % END, "C01 C02"),
        S("init=1 max=1 | W count take W count abort W count | give give | give" , "C01 C02"),
        S("init=3 max=0 | %s | take count | take take | count take" % END, "C01"),
        S("init=0 max=2 | %s | give count | give count take | give" % END, "C01 C02"),
        S("init=0 max=0 | %s | take | take | take | give give give" % END, "C01 C02", random=500),
        S("init=0 max=0 | %s | take | take | give give" % END, "C01 C02", bound=3, maxexec=4000),
        S("init=1 max=1 | %s | give | give | take take" % END, "C01 C02", bound=3, maxexec=4000),
        S("init=1 max=1 spur=1 | %s | give | give | take take" % END, "C01 C02"),
        S("init=0 max=0 spur=1 | %s | take | take | give give" % END, "C01 C02"),
        S("init=0 max=1 spur=1 | %s | take take | give give | take | give" % END, "C01 C02"),
        S("init=1 max=1 | %s | give give | give | take take | take" % END, "C01 C02"),
    ]
    # --- functors, also throwing, with waiters
    L += [
        S("init=0 max=0 | %s | take | takex | give" % END, "C01 C02 C03"),
        S("init=0 max=0 | %s | takef | takex | takef | give give" % END, "C01 C02 C03"),
        S("init=1 max=1 | %s | give | givex | take" % END, "C01 C02 C03"),
        S("init=1 max=1 | %s | givef | givex | givef | take take" % END, "C01 C02 C03"),
        S("init=1 max=1 | %s | takex | give | takef" % END, "C01 C02 C03"),
        S("init=1 max=1 | %s | takex takef | givef | take" % END, "C01 C02 C03"),
        S("init=0 max=1 | %s | takef takex | givex givef | count take" % END, "C01 C03"),
        S("init=1 max=2 | %s | takef count | givef count | givex" % END, "C01 C03"),
        S("init=1 max=0 | %s | takee take | takex | count" % END, "C01 C03"),
        S("init=1 max=2 | %s | givee give | givex | take count" % END, "C01 C03"),
        S("init=2 max=2 | %s | takef | takef | takef | givef" % END, "C03"),
        S("init=0 max=0 | %s | takex | take | takee | give" % END, "C02 C03"),
        S("init=1 max=1 | %s | givex | give | givee | take" % END, "C02 C03"),
        S("init=2 max=2 | %s | give | give | takex take | takex" % END, "C02 C03"),
        S("init=0 max=1 | %s | take | take | givex give | givex give" % END, "C02 C03"),
        S("init=2 max=3 | %s | takex takex takex take | givex give | count" % END, "C01 C03"),
    ]
    # --- abort
    L += [
        S("init=0 max=0 | W count W destroy | take take | take | abort", "C04"),
        S("init=0 max=1 | W count give W | give give | take take take | abort", "C04"),
        S("init=1 max=1 | W count W take give count | give give | givef | abort", "C04"),
        S("init=2 max=2 | W count take give | give takef | abort give | abort take", "C04"),
        S("init=0 max=0 | W count take | takef | give takef | abort abort", "C04 C03"),
        S("init=1 max=1 | abort W count | give | givef | takex take", "C04 C03"),
        S("init=0 max=0 spur=1 | W count abort give take | take | takef | abort", "C04"),
        S("init=5 max=5 | abort take takef give givef count W count | take | give", "C04"),
        S("init=5 max=9 | abort take takef give givef takex givex count W count | take | give | takef", "C04"),
        S("init=0 max=0 | abort abort abort W count destroy | take | take | take", "C04"),
        S("init=3 max=3 | W abort W count destroy | give | give | give | givef", "C04"),
        S("init=0 max=0 | destroy | take | take", "C04"),
        S("init=1 max=1 | destroy | give | givef", "C04"),
        S("init=0 max=1 | W destroy | take | takef | takex", "C04"),
    ]
    # --- limits
    b = BIG - 1 - 100
    def big(init, mx, ops, props="C05"):  # every rejection here is about the limits
        return S("init=%d max=%d base=%d | %s W count" % (init, mx, b, ops), props, bound=1, maxexec=200, random=20, own="C05")
    for init, mx in [(BIG - 1, 0), (BIG - 2, 0), (BIG, 0), (BIG + 5, 0), (2 ** 63, 0), (BIG - 1, BIG - 1), (BIG - 2, BIG - 1), (BIG - 3, BIG - 2),
                     (BIG - 2, BIG), (BIG - 2, BIG + 1), (BIG - 2, 2 * BIG), (BIG - 3, 2 * BIG + 7), (BIG - 2, 2 ** 40), (BIG - 2, 2 ** 64 - 1), (2 ** 64 - 1, 2 ** 64 - 1), (2 ** 64 - 1, 1),
                     (BIG - 5, 3), (BIG - 1, 3), (BIG + 1, 3), (BIG - 2, BIG - 2)]:
        L.append(big(init, mx, "W count W count | give count give count give count take give givef | give"))
        L.append(big(init, mx, "W count | give give give | givef takef takef | take give count"))
    for init, mx in [(0, 0), (0, 1), (1, 1), (3, 2), (7, 1), (2, 3), (0, BIG), (0, BIG + 1), (1, BIG + 2), (2, 2 ** 33), (0, 2 ** 63), (1, 2 ** 64 - 1), (0, BIG - 1), (2, BIG - 1), (5, 5), (100, 7), (65535, 65536), (65536, 1), (2 ** 31, 3)]:
        base = init - 50 if init > 1000 else 0
        L.append(S("init=%d max=%d base=%d | W count W count abort W | give count give givef give count | take" % (init, mx, base), "C05", bound=1, maxexec=100, random=10, own="C05"))
        L.append(S("init=%d max=%d base=%d | W count W count abort W | give give give | givef | takef take take take" % (init, mx, base), "C05", bound=1, maxexec=100, random=10, own="C05"))
    L.append(S("init=4 base=0 | W count abort W count | give give give | take take", "C05", maxexec=300, own="C05"))
    # --- random programs
    rnd = random.Random(seed * 7 + 1)
    ops = ["take"] * 5 + ["give"] * 5 + ["takef", "takef", "givef", "givef", "takex", "givex", "takee", "givee", "count"]
    n = 60 if tier == "quick" else 600
    for i in range(n):
        nt = rnd.choice([2, 3, 3, 3, 4])
        mx = rnd.choice([0, 0, 1, 1, 2, 3])
        init = rnd.randint(0, 2)
        thr = []
        for t in range(nt):
            o = [rnd.choice(ops) for _ in range(rnd.randint(1, 4 if nt < 4 else 3))]
            if rnd.random() < 0.10:
                o.insert(rnd.randint(0, len(o)), "abort")
            thr.append(" ".join(o))
        sp = " spur=1" if rnd.random() < 0.25 else ""
        L.append(S("init=%d max=%d%s | %s | %s" % (init, mx, sp, END, " | ".join(thr)), "C01 C02 C03 C04",
                   bound=2, maxexec=150 if tier == "quick" else 1200, random=80 if tier == "quick" else 600))
    if tier == "thorough":
        for s in L:
            s["bound"] = s["bound"] + 1
            s["maxexec"] *= 6
            s["random"] *= 6
    return L
