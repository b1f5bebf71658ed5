"""Scripts for MessageQueue (h_mq)."""
import random

def S(script, props, **kw):
    d = dict(comp="mq", exe="h_mq", script=script, props=set(props.split()), bound=2, maxexec=1000, random=250)
    d.update(kw)
    return d

def Q1(script, props, **kw):     # one thread
    return S(script, props, bound=0, maxexec=1, random=0, **kw)

AB = "W abort W st nm destroy"       # ends of main: abort first, or let the destructor do it
DE = "W st nm destroy"

class LockSim:
    """keeps generated lock operations free of self-deadlock"""
    def __init__(self, q2):
        self.s = {}; self.q2 = q2
    def holds(self, q): return any(v == ("held", q) for v in self.s.values())
    def ops(self, rnd):
        c = []
        for s in range(4):
            v = self.s.get(s)
            if v is None:
                for q in range(2 if self.q2 else 1):
                    if not self.holds(q) and not (q == 0 and self.holds(1)):
                        c.append(("lk:%d:%d" % (s, q), lambda s=s, q=q: self.s.__setitem__(s, ("held", q))))
                for d in range(4):
                    if self.s.get(d) is not None:
                        def mc(s=s, d=d): self.s[s] = self.s[d]; self.s[d] = ("empty", 0)
                        c.append(("mc:%d:%d" % (d, s), mc))
            else:
                if v[0] == "held" or rnd.random() < 0.3:
                    c.append(("ul:%d" % s, lambda s=s, v=v: self.s.__setitem__(s, ("open", v[1])) if v[0] == "held" else None))
                if v[0] == "empty" or (v[0] == "open" and not self.holds(v[1]) and not (v[1] == 0 and self.holds(1))):
                    c.append(("rl:%d" % s, lambda s=s, v=v: self.s.__setitem__(s, ("held", v[1])) if v[0] == "open" else None))
                c.append(("dl:%d" % s, lambda s=s: self.s.__setitem__(s, None)))
                for d in range(4):
                    if self.s.get(d) is not None:
                        def ma(s=s, d=d):
                            if s != d: self.s[d] = self.s[s]; self.s[s] = ("empty", 0)
                        c.append(("ma:%d:%d" % (s, d), ma))
        o, f = rnd.choice(c); f()
        return o

def scenarios(tier, seed):
    L = []
    rnd = random.Random(seed * 23 + 11)
    A = "C15 C16 C19"
    # --- one thread: every type, every size, every throwing position
    for size in (1, 2, 3, 5):
        for mx in (64, 65, 71, 72, 73, 80, 112, 500, 8, 40):
            tys = [1, 2, 3, 4, 5, 6, 7, 8]
            rnd.shuffle(tys)
            o = []
            for ty in tys:
                o += ["st", "%s:%d" % (rnd.choice("ep"), ty), "st", "nm", "W", "@"]
            body = " ".join(o)
            # a get is made only when something is there: sizes decide, so use purge and gets guarded by a second thread
            L.append(S("size=%d max=%d | %s W nm st purge st destroy | g g g g g g g g" % (size, mx, body.replace("@", "")), A, bound=0, maxexec=4, random=4))
    for ty in range(1, 9):
        for k in "ep":
            z = "max=400"
            L += [
                Q1("size=2 %s | %s:%d:c st %s:%d:c st %s:%d %s:%d st nm g st nm g st nm %s:%d:d g st nm %s:%d:n g st nm %s:%d g:1 st nm %s:%d g:2 st nm %s:%d g:3 st nm %s:%d %s:%d st purge st %s:%d g nm %s:%d %s:%d destroy"
                   % ((z,) + (k, ty) * 14), A),
                Q1("size=1 %s | %s:%d:d g %s:%d:n g %s:%d:c %s:%d g:2 %s:%d g:1 %s:%d purge %s:%d g nm %s:%d:dn g nm abort %s:%d g purge st nm destroy" % ((z,) + (k, ty) * 9), A + " C18"),
                Q1("size=3 %s | %s:%d:-:st+nm+p.1+y %s:%d:-:st g g:1:st+nm g st nm %s:%d %s:%d abort purge destroy" % ((z,) + (k, ty) * 4), A + " C18"),
            ]
    L.append(Q1("size=3 max=400 | e:1 purge e:2 e:3 purge purge e:4 e:5 e:6 st purge st e:1 e:2 e:3 g g purge e:7 e:8 g g nm st destroy", A))
    # --- producers and dispatchers
    for size in (1, 2, 3):
        p = "size=%d max=400" % size
        for e in (AB, DE):
            L += [
                S("%s | %s | e:1 p:2 e:3 | g g g | st nm st" % (p, e), A),
                S("%s | %s | e:1 p:2 | e:3 | g g | g" % (p, e), A),
                S("%s | %s | e:1 e:2 e:3 | g g | g nm | st st" % (p, e), A),
                S("%s | %s | e:1:d e:2:c e:3:n | g g | g:1 nm | st e:5" % (p, e), A),
                S("%s | %s | e:1 e:2:d | e:4:c e:7 | g:2 g:1 g | g:3 st" % (p, e), A),
                S("%s | %s | e:3:- e:4 e:8 | p:7:d | g g g | g nm" % (p, e), A),
                S("%s | %s | e:1:-:st+nm e:2:-:p.1 | g g | g:1:nm st | p:3" % (p, e), A),
            ]
    L += [
        S("size=1 max=64 | %s | e:1 e:1 | g g" % DE, A, bound=3, maxexec=3000),
        S("size=2 max=64 | %s | e:1 e:1 e:1 | g g g | st st st" % DE, A, bound=3, maxexec=2500),
        S("size=1 max=64 | %s | e:1 e:1 | e:1 | g | g" % DE, A, random=500),
        S("size=2 max=64 | e:1 e:1 %s | e:1 | e:1 | g | g" % DE, A, random=500),
        S("size=2 max=64 casf=2 | e:1 %s | e:1 e:1 | g g | st st" % DE, A),
        S("size=2 max=64 spur=1 | e:1 %s | e:1 e:1 | g g | g e:2" % DE, A),
        S("size=1 max=64 spur=1 | %s | e:1 e:1 | g g | e:1" % DE, A + " C18"),
        S("size=3 max=64 | e:1 e:1 e:1 g g e:1 e:1 %s | e:1 | g | st" % DE, A),
    ]
    # --- abort
    X = "C18 C16"
    for size in (1, 2):
        p = "size=%d max=400" % size
        L += [
            S("%s | %s | e:1 p:2 | g g | abort" % (p, AB), X),
            S("%s | %s | e:1 | e:2 e:3 | abort | g" % (p, AB), X),
            S("%s | %s | e:1:d | g:1 | abort | abort e:3 g" % (p, AB), X),
            S("%s | e:1 %s | g | g | abort" % (p, AB), X),
            S("%s | e:1 %s | g | e:2 | abort" % (p, AB), X),
            S("%s | e:1 e:1 %s | e:2:d | e:3:c | abort | g:2" % (p.replace("size=1", "size=3"), AB), X),
            S("%s | e:1:-:ab %s | g e:2 | e:3 g | e:4" % (p, AB), X),
            S("%s | e:1:-:ab+st+e.2+nm %s | g g | e:3 | g" % (p.replace("size=1", "size=3"), AB), X),
            S("%s | %s | g:1:ab | e:3 e:4 | g" % (p, AB), X),
            S("%s | W destroy | g | g | g" % p, X),
            S("%s | e:1 W destroy | e:1 e:2 e:3 | e:4 | e:5" % p, X),
            S("%s | e:3 %s | e:1:d | abort | g" % (p, AB), X),
            S("%s lock=1 | e:3 lk:0 W abort W xl W destroy | g | e:1 | g" % p, X + " C17"),
            S("%s lock=1 | %s | e:1 e:2 | g g | abort lk:0 xl" % (p, AB), X + " C17"),
        ]
    L += [
        S("size=1 max=64 | %s | e:1 | g | abort" % AB, X, bound=3, maxexec=3000, random=500),
        S("size=1 max=64 | e:1 %s | e:1 | abort" % AB, X, bound=4, maxexec=3000),
        S("size=1 max=64 | %s | e:1 | abort" % AB, X, bound=4, maxexec=3000),
        S("size=1 max=64 | e:1 %s | g | abort" % AB, X, bound=4, maxexec=3000),
        S("size=1 max=64 | e:1:d %s | g | abort" % AB, X, bound=4, maxexec=2000),
        S("size=1 max=64 | %s | e:1:c | abort" % AB, X, bound=4, maxexec=2000),
        S("size=1 max=64 | %s | g | abort" % AB, X, bound=4, maxexec=2000),
        S("size=2 max=64 | W destroy | e:1 e:1 e:1 | g g g g" , X, bound=2, maxexec=2000),
    ]
    # --- dispatch locking
    K = "C17"
    p = "size=2 max=64 lock=1"
    L += [
        S("%s | e:1 e:1 %s | g g | lk:0 y xl | st nm" % (p, DE), K + " C19"),
        S("%s | e:1 e:1 %s | g | g | lk:0 y dl:0" % (p, DE), K, bound=3, maxexec=2500),
        S("%s | e:1 e:1 %s | g g | lk:0 ul:0 rl:0 y xl | lk:1 xl" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 mc:0:1 dl:0 y ul:1 xl | lk:0 dl:0" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 ul:0 lk:1 ma:0:1 y rl:1 xl | lk:0 dl:0" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 ul:0 lk:1 ma:1:0 y dl:1 xl | lk:0 dl:0" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 ma:0:0 y ul:0 ul:0 xl | lk:0 mc:0:2 dl:2 dl:0" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 mc:0:1 ma:1:0 ma:0:1 y xl | lk:0 ul:0 dl:0" % (p, DE), K),
        S("%s | e:1 e:1 %s | g g | lk:0 mc:0:1 rl:0 ul:0 y dl:1 xl | lk:0 ul:0 dl:0" % (p, DE), K),
        S("%s q2=1 | e:1 e:1 %s | g g | lk:0 lk:1:1 ma:1:0 y ul:1 xl | lk:0 dl:0 lk:2:1 dl:2" % (p, DE), K),
        S("%s q2=1 | e:1 e:1 %s | g g | lk:0 lk:1:1 ma:0:1 y ul:0 xl | lk:0:1 dl:0 lk:2 dl:2" % (p, DE), K),
        S("%s | e:1:d e:1:n %s | g | g:1 | lk:0 y dl:0" % (p, DE), K + " C16"),
        S("%s | e:1:d e:1 %s | g | g:2 lk:0 xl | lk:0 y dl:0" % (p, DE), K + " C16"),
        S("%s | lk:0 W ul:0 W rl:0 W dl:0 %s | e:1 e:2 | g g | lk:0 dl:0" % (p, DE), K),
        S("%s | lk:0 W mc:0:1 W dl:0 W dl:1 %s | e:1 e:2 | g g | lk:0 dl:0" % (p, DE), K),
        S("%s | lk:0 ul:0 lk:1 W ma:0:1 W xl %s | e:1 e:2 | g g | lk:0 dl:0" % (p, DE), K),
        S("%s | lk:0 ul:0 lk:1 W ma:1:0 W ul:0 W xl %s | e:1 e:2 | g g | lk:0 dl:0" % (p, DE), K),
        S("%s | lk:0 e:1 e:1 purge st e:1 go:1 go:2 W xl %s | G g | G g" % (p, DE), K + " C16"),
        S("%s | e:1 e:2 purge st e:3 go:1 e:2 e:3:d go:2 W %s | G g | G g g" % (p, DE), K + " C16"),
        S("size=2 max=64 | lk:0 e:1 lk:1 %s | lk:0 g | e:1 lk:3 g" % DE, K),
        Q1("size=2 max=64 | lk:0 e:1 g lk:0 e:1 lk:1 g st destroy", K),
        Q1("size=2 max=64 lock=1 q2=1 | lk:0 dl:0 lk:0 ul:0 ul:0 rl:0 mc:0:1 rl:0 ul:0 ul:1 e:1 g ma:0:1 dl:1 lk:1 lk:2:1 ma:2:1 e:1 g ma:1:0 lk:3 xl e:1 g destroy", K),
    ]
    for i in range(25 if tier == "quick" else 250):
        q2 = rnd.random() < 0.3
        thr = []
        for t in range(rnd.choice([2, 2, 3])):
            sim = LockSim(q2); o = []
            for _ in range(rnd.randint(4, 8)):
                o.append("y" if rnd.random() < 0.15 else sim.ops(rnd))
            thr.append(" ".join(o) + " xl")
        thr.append(rnd.choice(["g g", "g e:1 g", "e:1 g"]))
        L.append(S("size=%d max=64 lock=1%s | e:1 %s | %s" % (rnd.choice([1, 2, 3]), " q2=1" if q2 else "", rnd.choice([AB, DE]), " | ".join(thr)), K, maxexec=100 if tier == "quick" else 600, random=80 if tier == "quick" else 500))
        sim = LockSim(q2)
        L.append(Q1("size=2 max=64 lock=1%s | %s xl e:1 g destroy" % (" q2=1" if q2 else "", " ".join(sim.ops(rnd) for _ in range(40))), K))
    # --- random programs
    for i in range(70 if tier == "quick" else 700):
        size = rnd.choice([1, 1, 2, 2, 3, 4])
        lock = rnd.random() < 0.3
        mx = rnd.choice([64, 72, 400, 400])
        def msg():
            f = "".join(c for c in "cdn" if rnd.random() < 0.12) or "-"
            b = rnd.choice(["", "", "", ":st", ":nm", ":st+nm", ":y"] + ([":p.1"] if rnd.random() < 0.3 else []) + ([":ab"] if rnd.random() < 0.1 else []))
            return "%s:%d:%s%s" % (rnd.choice("ep"), rnd.randint(1, 8), f, b)
        def prog(k):
            o = []
            for _ in range(k):
                x = rnd.random()
                o.append(msg() if x < .42 else rnd.choice(["g", "g", "g:1", "g:1:st+nm", "g:2", "g:3"]) if x < .84 else "st" if x < .9 else "nm" if x < .95 else "lk:0 y xl" if lock else "abort" if x < .97 else "st")
            return " ".join(o)
        nt = rnd.choice([2, 3, 3])
        pre = " ".join(msg() for _ in range(rnd.randint(0, size)))
        sp = rnd.choice(["", "", "", " casf=1", " spur=1"])
        L.append(S("size=%d max=%d%s%s | %s %s | %s" % (size, mx, " lock=1" if lock else "", sp, pre, rnd.choice([AB, DE]), " | ".join(prog(rnd.randint(2, 4)) for _ in range(nt))),
                   A + " C18" + (" C17" if lock else ""), maxexec=100 if tier == "quick" else 900, random=80 if tier == "quick" else 600))
    if tier == "thorough":
        for s in L:
            if s["random"] > 10:
                s["bound"] += 1; s["maxexec"] *= 6; s["random"] *= 6
    return L
