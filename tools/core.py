"""Building the harnesses from /repo's working tree, exploring scripts, validating histories with TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from trace import Trie, run_tlc, SPEC, ROOT

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
WORK = os.path.join(ROOT, "work")
NCPU = max(1, min(8, os.cpu_count() or 1))
INSTR = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-fno-lifetime-dse", "-DREISER_RT_HAS_PTHREADS",
         "-Wno-tsan", "-Wno-interference-size", "-w", "-fno-strict-aliasing"]
PLAIN = ["-std=c++17", "-O2", "-g1", "-DREISER_RT_HAS_PTHREADS", "-w"]

class CheckError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ build
def _hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def tree(*dirs):
    r = []
    for d in dirs:
        for b, _, fs in os.walk(d):
            if "_build" in b.split(os.sep):
                continue
            r += [os.path.join(b, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".cc", ".c", ".ipp", ".inl"))]
    return r

_bd = None
def build_dir():
    global _bd
    if _bd is None:
        hh = _hash_files(tree(SRC, HARN, os.path.join(REPO, "examples")), " ".join(INSTR + PLAIN))
        _bd = os.path.join(BUILD, hh)
        os.makedirs(_bd, exist_ok=True)
        os.utime(_bd)
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
        for d in ds[:-4]:
            shutil.rmtree(d, ignore_errors=True)
    return _bd

def _cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def _obj(src, flags, out):
    if not os.path.exists(out):
        t = out + ".%d.tmp" % os.getpid()
        _cc(["g++"] + flags + ["-I" + HARN, "-I" + SRC, "-c", src, "-o", t])
        os.replace(t, out)
    return out

def build(names):
    """names: harness base names (h_sem ...). Every /repo/src/*.cpp is linked into each. Returns {name: exe}."""
    bd = build_dir()
    libs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".cpp")]
    jobs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        fut = {}
        fut["vsched"] = ex.submit(_obj, os.path.join(HARN, "vsched.cpp"), ["-std=c++17", "-O2", "-g1", "-w"], os.path.join(bd, "vsched.o"))
        for n in names:
            if not n.startswith("p_"):
                fut[n] = ex.submit(_obj, os.path.join(HARN, n + ".cpp"), INSTR, os.path.join(bd, n + ".o"))
            else:
                fut[n] = ex.submit(_obj, os.path.join(HARN, n + ".cpp"), PLAIN, os.path.join(bd, n + ".o"))
        need_i = any(not n.startswith("p_") for n in names)
        need_p = any(n.startswith("p_") for n in names)
        li = [ex.submit(_obj, f, INSTR, os.path.join(bd, "lib_" + os.path.basename(f) + ".o")) for f in libs] if need_i else []
        lp = [ex.submit(_obj, f, PLAIN, os.path.join(bd, "plain_" + os.path.basename(f) + ".o")) for f in libs] if need_p else []
        exes = {}
        li = [f.result() for f in li]; lp = [f.result() for f in lp]
        def link(n):
            exe = os.path.join(bd, n)
            o = fut[n].result()
            if not os.path.exists(exe):
                t = exe + ".%d.tmp" % os.getpid()
                if n.startswith("p_"):
                    _cc(["g++", "-o", t, o] + lp + ["-pthread"])
                else:
                    _cc(["g++", "-no-pie", "-o", t, fut["vsched"].result(), o] + li + ["-ldl", "-pthread"])
                os.replace(t, exe)
            return exe
        for n in names:
            exes[n] = link(n)
    return exes

# ------------------------------------------------------------------ exploration
class Hist:
    __slots__ = ("sid", "status", "dec", "ev", "racy")
    def __init__(self, sid, status, dec):
        self.sid, self.status, self.dec, self.ev, self.racy = sid, status, dec, [], []

def parse_out(path):
    hs, ends = [], []
    cur = None
    with open(path, errors="replace") as f:
        for l in f:
            l = l.rstrip("\n")
            if cur is None:
                if l.startswith("H "):
                    _, sid, st, dec = l.split(" ")
                    cur = Hist(int(sid), int(st), dec)
                elif l.startswith("E "):
                    w = l.split(" ")
                    ends.append(dict(sid=int(w[1]), execs=int(w[2]), uniq=int(w[3]), bound=int(w[4]), random=int(w[5]),
                                     limited=int(w[6]), racy=int(w[7]), wall=float(w[8]), pcs=w[9:]))
                    for h in hs:
                        if h.sid == int(w[1]):
                            h.racy = w[9:]
            elif l == ".":
                hs.append(cur); cur = None
            else:
                cur.ev.append(l)
    return hs, ends

def explore(exes, scens, seed, tmp, scale=1.0):
    """scens: list of dicts(comp exe script bound maxexec random maxhist maxsec). Returns histories, per-scenario summaries."""
    lock = threading.Lock()
    jobs = []
    for i, s in enumerate(scens):
        rnd = int(s.get("random", 0) * scale)
        jobs.append((i, s, s.get("bound", 2), max(1, int(s.get("maxexec", 2000) * scale)), 0 if rnd > 600 else rnd, 0))
        if rnd > 600:
            parts = min(8, (rnd + 799) // 800)
            for k in range(parts):
                jobs.append((i, s, -1, 0, rnd // parts, k + 1))
    # group tiny jobs
    groups = []
    cur, w = [], 0
    for j in sorted(jobs, key=lambda j: -(j[3] + j[4])):
        cost = j[3] + j[4]
        if cost >= 300:
            groups.append((j[1]["exe"], [j]))
        else:
            cur.append(j)
    by = {}
    for j in cur:
        by.setdefault(j[1]["exe"], []).append(j)
    for exe, js in by.items():
        # interleave so that groups have similar weight
        n = max(1, min(len(js), NCPU * 2))
        for k in range(n):
            groups.append((exe, js[k::n]))
    cpus = list(range(NCPU)); cl = threading.Lock()
    hist, ends = [], []
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (400 if scale <= 1 else 1e9)
    nb = [0]
    def one(gi, exe, js):
        # code that crashes or hangs everywhere need not be explored to the end; neither may a slow machine run out of time
        if nb[0] > 200 or time.time() - t0 > budget:
            return [], []
        jf = os.path.join(tmp, "j%d" % gi); of = os.path.join(tmp, "o%d" % gi)
        with open(jf, "w") as f:
            for (i, s, bound, maxexec, rnd, part) in js:
                f.write("%d %d %d %d %d %d %g %s\n" % (i, bound, maxexec, rnd, (seed * 131 + i * 17 + part * 7919) % 2147483647,
                                                     s.get("maxhist", 20000), s.get("maxsec", 60), s["script"]))
        with cl:
            cpu = cpus.pop() if cpus else 0
        try:
            env = dict(os.environ, VS_CPU=str(cpu))
            p = subprocess.run([exes[exe], jf, of], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
        finally:
            with cl:
                cpus.append(cpu)
        if p.returncode != 0:
            raise CheckError("explorer failed (%d): %s" % (p.returncode, p.stdout[-2000:]))
        r = parse_out(of)
        nb[0] += sum(1 for h in r[0] if h.status)
        os.unlink(of); os.unlink(jf)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(one, gi, exe, js) for gi, (exe, js) in enumerate(groups)]
        for f in fs:
            h, e = f.result()
            hist += h; ends += e
    return hist, ends

def replay(exe, h, script):
    p = subprocess.run([exe, "--replay", h.dec, script] + list(h.racy), stdout=subprocess.PIPE, text=True, errors="replace", timeout=120)
    return p.stdout.splitlines()

# ------------------------------------------------------------------ validation
def tlc_or_die(r, what):
    """a trace run must end normally: either no error, or an invariant violation (reported separately)"""
    if r["rc"] == 0:
        return
    raise CheckError("TLC failed on %s (rc %s):\n%s" % (what, r["rc"], r["out"][-3000:]))

def validate(comp, hists, tmp, shards=None, relax="", diag=False):
    """hists: list of event lists (strings). comp: component object. Returns (accepted flags, stats)."""
    n = len(hists)
    if n == 0:
        return [], dict(states=0, transitions=0, tlc=0)
    if shards is None:
        shards = max(1, min(NCPU, n // 400 + 1))
    # keep histories with common prefixes together
    order = sorted(range(n), key=lambda i: hists[i])
    parts = [[] for _ in range(shards)]
    per = (n + shards - 1) // shards
    for k, i in enumerate(order):
        parts[k // per].append(i)
    parts = [p for p in parts if p]
    ok = [False] * n
    st = dict(states=0, transitions=0, tlc=0)
    at = {}
    def one(k, idx):
        t = Trie()
        leaves = [t.add(comp.cook(hists[i])) for i in idx]
        path = os.path.join(tmp, "trie_%s_%d_%d.json" % (comp.name, k, threading.get_ident()))
        pos = t.dump(path, comp.decode)
        r = run_tlc(comp.module + ".tla", comp.module + ".cfg", dict(TRIE=path, RELAX=relax, DIAG="1" if diag else "0"), heap="3g", timeout=3000, metadir=tmp)
        os.unlink(path)
        if r["rc"] != 0:
            # the specification cannot even be evaluated on some history (or time ran out): find which one
            if r["rc"] in (-1, 1) or r["rc"] >= 150 or "OutOfMemory" in r["out"]:
                tlc_or_die(r, comp.name)
            if len(idx) > 1:
                h = len(idx) // 2
                return one(k, idx[:h]) + one(k, idx[h:])
            log("TLC cannot evaluate the specification on a history; it counts as rejected\n" + r["out"][-1500:])
        acc = set(map(int, re.findall(r'<<"ACC", (\d+)>>', r["out"])))
        reached = set(map(int, re.findall(r'<<"AT", (\d+)>>', r["out"]))) if diag else None
        return [(idx, leaves, pos, acc, reached, r, t)]
    with ThreadPoolExecutor(NCPU) as ex:
        for idx, leaves, pos, acc, reached, r, t in (x for f in [ex.submit(one, k, p) for k, p in enumerate(parts)] for x in f.result()):
            st["states"] += r["distinct"]; st["transitions"] += r["generated"]; st["tlc"] += 1
            for i, l in zip(idx, leaves):
                ok[i] = pos[l] in acc
                if diag:
                    # deepest prefix of this history that the specification can reproduce
                    nn, d = 0, 0
                    for e in comp.cook(hists[i]):
                        nn = t.kids[nn][t.evid[e]]
                        if pos[nn] in reached:
                            d += 1
                        else:
                            break
                    at[i] = d
    if diag:
        return ok, st, at
    return ok, st
