"""Per component: harness, trace module, decoding of log lines, and which property a rejected history speaks about."""

def I(x):
    """TLC's integers have 32 bits; whatever is larger is garbage no specification expects"""
    return max(-2147483647, min(2147483647, int(x)))

class Comp:
    name = module = exe = None
    def cook(self, h):
        return h
    def decode(self, l):
        raise NotImplementedError
    def classify(self, h, k, relaxed):
        """h: events, k: index of the first event the spec cannot follow, relaxed: same with quiescence checks waived
        (or None when the history is then accepted). Returns the set of properties it speaks about."""
        raise NotImplementedError

def calls_before(h, k, kind):
    return any(e.startswith("call ") and e.split()[2] == kind for e in h[:k])

def rets_before(h, k, kinds):
    cur = {}
    for e in h[:k]:
        w = e.split()
        if w[0] == "call":
            cur[w[1]] = w[2]
        elif w[0] == "ret" and cur.get(w[1]) in kinds:
            return True
    return False

def op_of(h, k, t):
    """operation thread t is in at event k"""
    for e in reversed(h[:k]):
        w = e.split()
        if w[0] == "call" and w[1] == t:
            return w[2]
    return ""

class Sem(Comp):
    name, module, exe = "sem", "TraceSemaphore", "h_sem"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init":
            i, m, u, lim, z, n = map(I, w[1:])
            return dict(ev="init", i=i, m=m, unb=u, lim=lim, zero=z, n=n)
        if k == "call": return dict(ev="call", t=I(w[1]), k=w[2])
        if k == "fb": return dict(ev="fb", t=I(w[1]))
        if k == "fe": return dict(ev="fe", t=I(w[1]), x=I(w[2]))
        if k == "ret": return dict(ev="ret", t=I(w[1]), r=w[2], c=I(w[3]))
        if k == "q": return dict(ev="q", s=[I(x) for x in w[1:]])
        if k == "end": return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        r = set()
        for j in {k, k if relaxed is None else relaxed}:
            if j >= len(h):
                continue
            w = h[j].split()
            ab = rets_before(h, j, ("abort", "destroy"))
            anyab = calls_before(h, j, "abort")
            if w[0] == "q" or w[0] == "livelock":
                r |= {"C04"} if ab else {"C02"}
            elif w[0] in ("fb", "fe"):
                r |= {"C03"}
                if ab: r |= {"C04"}
                if w[0] == "fb": r |= {"C01"}
            elif w[0] == "ret":
                op, res = op_of(h, j, w[1]), w[2]
                if res == "aborted": r |= {"C04"}
                elif res == "overflow": r |= {"C05"}
                elif res in ("exn", "badfn", "wrongexn", "otherexn"): r |= {"C03"}
                elif op == "count": r |= {"C01"}
                elif op in ("abort", "destroy"): r |= {"C04"}
                else:
                    r |= {"C01"}
                    if ab or anyab: r |= {"C04"}
                    if op.endswith(("f", "x", "e")): r |= {"C03"}
            else:
                r |= {"C01", "C02", "C03", "C04", "C05"}
        return r

class Mtx(Comp):
    name, module, exe = "mutex", "TraceMutex", "h_mutex"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init": return dict(ev="init", n=I(w[1]))
        if k == "call": return dict(ev="call", t=I(w[1]), k=w[2], err=I(w[3]))
        if k in ("in", "out"): return dict(ev=k, t=I(w[1]))
        if k == "ret":
            r, err = w[2], 0
            if r.startswith("syserr"):
                err = I(r[6:]); r = "syserr"
            return dict(ev="ret", t=I(w[1]), r=r, err=err)
        if k == "q": return dict(ev="q", s=[I(x) for x in w[1:]])
        if k == "pi": return dict(ev="pi", obj=w[1], cnt=I(w[2]), pi=I(w[3]))
        if k == "end": return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        return {"C06"}

class RingG(Comp):
    name, module, exe = "ring", "TraceRingGuarded", "h_ring"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init": return dict(ev="init", cap=I(w[1]), prime=I(w[2]), b=I(w[3]), n=I(w[4]))
        if k == "call": return dict(ev="call", t=I(w[1]), k=w[2], v=I(w[3]))
        if k == "pc": return dict(ev="pc", t=I(w[1]), i=I(w[2]))
        if k == "fc": return dict(ev="fc", t=I(w[1]), v=I(w[2]))
        if k == "ret": return dict(ev="ret", t=I(w[1]), r=w[2], v=I(w[3]))
        if k == "q": return dict(ev="q", s=[I(x) for x in w[1:]])
        if k == "end": return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        r = set()
        for j in {k, k if relaxed is None else relaxed}:
            if j >= len(h):
                continue
            w = h[j].split()
            anyab = calls_before(h, j, "abort") or calls_before(h, j, "destroy")
            prime = h[0].split()[2] == "1"
            primed = rets_before(h, j, ("prime",))
            if w[0] in ("q", "livelock"):
                r |= {"C09"}
                if anyab or (prime and not primed): r |= {"C10"}
            elif w[0] in ("pc", "fc"):
                r |= {"C10"}
                if w[0] == "fc": r |= {"C08"}
            elif w[0] == "ret":
                op, res = op_of(h, j, w[1]), w[2]
                if op in ("prime", "flush", "abort", "destroy"): r |= {"C10"}
                elif res in ("stateerr", "aborted", "dropped"): r |= {"C10"} if anyab or prime else {"C08", "C10"}
                else: r |= {"C08"} | ({"C10"} if anyab or prime else set())
            else:
                r |= {"C08", "C09", "C10"}
        return r

class RingS(Comp):
    name, module, exe = "rseq", "TraceRingSimple", "h_rseq"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init": return dict(ev="init", kind=w[1], req=I(w[2]), prime=I(w[3]), m=I(w[4]))
        if k == "sz": return dict(ev="sz", size=I(w[1]), mask=I(w[2]), bits=I(w[3]))
        if k in ("P", "G"): return dict(ev=k, n=I(w[1]), first=I(w[2]), r=w[3])
        if k == "C": return dict(ev=k, c=I(w[1]), n=I(w[2]), first=I(w[3]))
        if k == "prime": return dict(ev=k, n=I(w[1]), bad=I(w[2]), r=w[3])
        if k == "flush": return dict(ev=k, n=I(w[1]), first=I(w[2]), bad=I(w[3]), r=w[4])
        if k == "abort": return dict(ev=k)
        if k == "stuck": return dict(ev=k, what=w[1])
        if k == "q": return dict(ev=k)
        if k in ("end", "gone"): return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        return {"C07"} if h[0].split()[1] == "simple" else {"C08"}

class PoolC(Comp):
    name, module, exe = "pool", "TracePool", "h_pool"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init": return dict(ev="init", kind=w[1], req=I(w[2]), esz=I(w[3]), epb=I(w[4]), scal=I(w[5]), n=I(w[6]))
        if k == "sz": return dict(ev="sz", size=I(w[1]))
        if k == "call": return dict(ev="call", t=I(w[1]), k=w[2], id=I(w[3]), type=I(w[4]), sz=I(w[5]))
        if k == "ct": return dict(ev="ct", t=I(w[1]), id=I(w[2]), type=I(w[3]), lo=I(w[4]), sz=I(w[5]), al=I(w[6]), good=I(w[7]))
        if k == "cx": return dict(ev="cx", t=I(w[1]), id=I(w[2]))
        if k == "dt": return dict(ev="dt", t=I(w[1]), id=I(w[2]), type=I(w[3]), good=I(w[4]))
        if k == "rd": return dict(ev="rd", good=I(w[3]))
        if k == "share": return dict(ev="share", id=I(w[2]))
        if k == "ret" and w[2] == "stat": return dict(ev="rets", t=I(w[1]), size=I(w[3]), rc=I(w[4]), lw=I(w[5]))
        if k == "ret": return dict(ev="ret", t=I(w[1]), r=w[2], got=I(w[3]), num=I(w[4]), lo=I(w[5]), sz=I(w[6]), zero=I(w[7]))
        if k == "q": return dict(ev="q", s=[I(x) for x in w[1:]])
        if k == "gone": return dict(ev="gone")
        if k == "end": return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        r = set()
        for j in {k, k if relaxed is None else relaxed}:
            if j >= len(h):
                continue
            w = h[j].split()
            if w[0] == "ct": r |= {"C11", "C12"} | ({"C13"} if w[7] != "1" else set())
            elif w[0] == "cx": r |= {"C12", "C13"}
            elif w[0] == "dt": r |= {"C11", "C13"} if w[4] == "0" else {"C13"}
            elif w[0] == "rd": r |= {"C11", "C13"}
            elif w[0] == "sz": r |= {"C12"}
            elif w[0] == "ret" and w[2] == "stat": r |= {"C14"}
            elif w[0] == "ret":
                if w[2] in ("under", "sizeerr"): r |= {"C12"}
                elif w[2] == "ok" and op_of(h, j, w[1]) == "new": r |= {"C11", "C12", "C13"}
                else: r |= {"C12", "C13"}
            elif w[0] in ("q", "livelock"): r |= {"C12"}
            elif w[0] == "bad-argument": r |= {"C13"}
            elif w[0] == "end": r |= {"C11"}
            else: r |= {"C11", "C12", "C13"}
        return r

class MQ(Comp):
    name, module, exe = "mq", "TraceMsgQueue", "h_mq"
    def decode(self, l):
        w = l.split()
        k = w[0]
        if k == "init": return dict(ev="init", size=I(w[1]), max=I(w[2]), lock=I(w[3]), n=I(w[4]), v=I(w[5]), ns=I(w[6]), st=I(w[7]))
        if k == "call": return dict(ev="call", t=I(w[1]), k=w[2], a=I(w[3]), b=I(w[4]), c=I(w[5]))
        if k == "ct": return dict(ev="ct", t=I(w[1]), id=I(w[2]), type=I(w[3]), lo=I(w[4]), sz=I(w[5]), al=I(w[6]), good=I(w[7]))
        if k in ("cx", "nx"): return dict(ev=k, t=I(w[1]), id=I(w[2]))
        if k == "wk": return dict(ev=k, t=I(w[1]), thr=I(w[2]))
        if k == "db": return dict(ev=k, t=I(w[1]), id=I(w[2]), good=I(w[3]))
        if k == "de": return dict(ev=k, t=I(w[1]), id=I(w[2]), good=I(w[3]), thr=I(w[4]))
        if k == "dt": return dict(ev=k, t=I(w[1]), id=I(w[2]), type=I(w[3]), good=I(w[4]))
        if k == "ret" and w[2] == "stat": return dict(ev="rets", t=I(w[1]), size=I(w[3]), rc=I(w[4]), hw=I(w[5]))
        if k == "ret" and w[2] == "name": return dict(ev="retn", t=I(w[1]), c=I(w[3]))
        if k == "ret": return dict(ev="ret", t=I(w[1]), r=w[2])
        if k == "q": return dict(ev="q", s=[I(x) for x in w[1:]])
        if k == "gone": return dict(ev="gone")
        if k == "end": return dict(ev="end", bad=I(w[1]))
        return dict(ev="bad")
    def classify(self, h, k, relaxed):
        r = set()
        lock = h[0].split()[3] == "1"
        for j in {k, k if relaxed is None else relaxed}:
            if j >= len(h):
                continue
            w = h[j].split()
            ab = calls_before(h, j, "abort") or calls_before(h, j, "destroy") or calls_before(h, j, "ab")
            thrown = any(e.split()[0] in ("cx", "nx") or (e.startswith("wk") and e.endswith(" 1")) or (e.startswith("de") and e.endswith(" 1")) for e in h[:j])
            mi = any(e.startswith("ct") and e.split()[3] in ("3", "4") for e in h[:j])
            ev = w[0]
            if ev == "ct": r |= {"C16"} | ({"C15"} if w[7] == "0" else set())
            elif ev in ("cx", "nx"): r |= {"C16"}
            elif ev == "wk": r |= {"C19"}
            elif ev == "db": r |= {"C15"} | ({"C17"} if lock else set()) | ({"C18"} if ab else set()) | ({"C19"} if any(e.startswith("call") and e.split()[2] == "get" and e.split()[3] != "0" for e in h[:j]) else set()) | ({"C16"} if w[3] == "0" else set())
            elif ev == "de": r |= {"C15", "C16"}
            elif ev == "dt": r |= {"C16"} | ({"C18"} if ab else set())
            elif ev == "ret" and w[2] == "stat": r |= {"C19"}
            elif ev == "ret" and w[2] == "name": r |= {"C19"}
            elif ev == "ret":
                op, res = op_of(h, j, w[1]), w[2]
                if op in ("lk", "rl", "ul", "dl", "mc", "ma") or res == "disabled": r |= {"C17"}
                elif op in ("abort", "destroy"): r |= {"C18", "C16"}
                elif op == "purge": r |= {"C16"}
                elif res in ("aborted", "stateerr"): r |= {"C18"} | ({"C16"} if op == "put" else set())
                elif res in ("exn", "wrongexn", "otherexn", "badfn", "sizeerr"): r |= {"C16"} | ({"C18"} if ab else set())
                else: r |= {"C15", "C16"} | ({"C18"} if ab else set())
            elif ev in ("q", "livelock"):
                r |= {"C18"} if ab else {"C15"}
                if lock or calls_before(h, j, "lk"): r |= {"C17"}
                if thrown or mi or calls_before(h, j, "purge"): r |= {"C16"}
            elif ev == "crash": r |= {"C16", "C18"} if ab else {"C15", "C16"}
            elif ev == "bad-argument": r |= {"C15"}
            elif ev in ("gone", "end"): r |= {"C16"}
            else: r |= {"C15", "C16", "C17", "C18", "C19"}
        return r

COMPS = {c.name: c for c in [Sem(), Mtx(), RingG(), RingS(), PoolC(), MQ()]}

def safe(f):
    """what changed code makes of the log may be garbage"""
    def g(self, l):
        try:
            return f(self, l)
        except (ValueError, IndexError):
            return dict(ev="bad")
    return g
for c in COMPS.values():
    type(c).decode = safe(type(c).decode)
