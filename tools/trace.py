"""Histories -> trie -> TLC -> verdicts."""
import json, os, subprocess, sys, re, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"

def find_cp():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    jars.sort(key=lambda j: 0 if j.endswith("tla2tools.jar") else 1)
    return ":".join(jars)

class Trie:
    """merges sequences of (hashable) events"""
    def __init__(self):
        self.kids = [dict()]
        self.ev = []
        self.evid = {}
        self.edge = [0]
        self.leaf = {}
    def add(self, seq):
        n = 0
        for e in seq:
            i = self.evid.get(e)
            if i is None:
                i = self.evid[e] = len(self.ev); self.ev.append(e)
            k = self.kids[n].get(i)
            if k is None:
                k = len(self.kids); self.kids[n][i] = k; self.kids.append(dict()); self.edge.append(i)
            n = k
        return n
    def dump(self, path, decode):
        # renumber breadth-first so that children are contiguous; 1-based
        order = [0]; pos = {0: 1}; ko = []; kc = []; e = []
        i = 0
        while i < len(order):
            n = order[i]; i += 1
            ks = list(self.kids[n].values())
            ko.append(len(order) + 1); kc.append(len(ks)); e.append(self.edge[n] + 1)
            for k in ks:
                order.append(k); pos[k] = len(order)
        with open(path, "w") as f:
            json.dump({"ev": [decode(x) for x in self.ev] or [{"ev": "none"}], "e": e, "ko": ko, "kc": kc}, f)
        return pos

def run_tlc(module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=600, cwd=SPEC, metadir=None):
    md = tempfile.mkdtemp(prefix="tlc", dir=metadir)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-cp", find_cp(), "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module]
    e = dict(os.environ); e.update(env or {}); e.setdefault("DIAG", "0"); e.setdefault("RELAX", "")
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""); rc = -1
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t0)
