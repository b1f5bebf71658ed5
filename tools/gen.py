"""Behaviours of the specification, replayed into the real code: TLC walks Gen<X>.tla and prints, for every settled state
of the contract and every move the environment can make there, a sequence of moves that leads there; each becomes a script."""
import os, random
from trace import run_tlc, SPEC
from core import _hash_files, BUILD, CheckError
import tempfile

def words(module, cfg, tmp, workers=2, timeout=1500):
    deps = [os.path.join(SPEC, f) for f in os.listdir(SPEC) if f.endswith(".tla")] + [os.path.join(SPEC, cfg + ".cfg")]
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "words_%s_%s" % (cfg, _hash_files(deps)))
    if not os.path.exists(path):
        r = run_tlc(module + ".tla", cfg + ".cfg", workers=workers, heap="4g", timeout=timeout, metadir=tmp)
        if r["rc"] != 0:
            raise CheckError("generation %s failed:\n%s" % (cfg, r["out"][-3000:]))
        ws = sorted({l.strip().strip('"')[5:] for l in r["out"].splitlines() if l.strip().strip('"').startswith("WORD|")})
        # a word that another one begins with needs no run of its own
        keep = [w for w, n in zip(ws, ws[1:] + [""]) if not n.startswith(w + " ")]
        t = path + ".%d" % os.getpid()
        with open(t, "w") as f:
            f.write("%d %d\n" % (r["distinct"], r["generated"]) + "\n".join(keep) + "\n")
        os.replace(t, path)
    with open(path) as f:
        ls = f.read().splitlines()
    st = list(map(int, ls[0].split()))
    return [w.split("|") for w in ls[1:]], st

def split(moves, opmap, race):
    """moves '1:take 2:+ ...' -> main's gate openings and each thread's operations; race: how many of the last moves are let go at once"""
    main, thr = [], {}
    ms = moves.split()
    for i, m in enumerate(ms):
        t, k = m.split(":", 1)
        main.append(("goo:" if i >= len(ms) - race else "go:") + t)
        th = thr.setdefault(int(t), [])
        if not k.startswith("+"):
            th.append("G " + opmap(int(t), k, i + 1))
    return " ".join(main), " | ".join(" ".join(thr.get(t, ["Y"])) for t in range(1, max(thr) + 1)), " ".join("go:%d" % t for t in list(range(1, max(thr) + 1)) * 2)

def may_race(moves, never):
    """the last two moves may be made at once: by different threads, and allowed in either order"""
    ms = [m.split(":", 1) for m in moves.split()[-2:]]
    return len(ms) == 2 and ms[0][0] != ms[1][0] and not any(m[1].split(".")[0] in never for m in ms) and any(m[1] != "+" for m in ms)

# component -> how a behaviour becomes a script
def sem_script(conf, moves, rnd, race):
    i, m = conf.split()
    main, thr, rest = split(moves, lambda t, k, n: k + ":g" if k[-1] in "fx" else k, race)
    return "init=%s max=%s | %s W %s W count abort W count destroy | %s" % (i, m, main, rest, thr)

def mutex_script(conf, moves, rnd, race):
    op = lambda t, k, n: {"g": "g:g", "u": "u:g", "elock": "elock:22", "etry": "etry:16", "eunlock": "eunlock:22",
                          "lock": rnd.choice(["lock", "lock", "nlock"]), "try": rnd.choice(["try", "try", "ntry"]), "unlock": rnd.choice(["unlock", "unlock", "nunlock"])}[k]
    main, thr, rest = split(moves, op, race)
    return "x=1 | %s W %s W | %s" % (main, rest, thr)

def ring_script(conf, moves, rnd, race):
    cap, prime = conf.split()
    main, thr, rest = split(moves, lambda t, k, n: "put:%d" % n if k == "put" else "prime:%d:g" % (20 * n) if k == "prime" else k, race)
    ty = rnd.choice(["int", "int", "int", "u8", "i64", "dbl", "vptr", "ptr", "cptr", "u16"])
    return "cap=%s prime=%s type=%s | %s W %s W %sflush flush destroy | %s" % (cap, prime, ty, main, rest + " " + rest, "" if "abort" in moves else "abort W ", thr)

def mq_script(conf, moves, rnd, race):
    size, lock = conf.split()
    def op(t, k, n):
        k = k.replace(".", ":")
        if not k.startswith("e:"): return k
        f = k[2:]
        return "%s:%d:%s" % (rnd.choice("ep"), rnd.choice([1, 2, 3, 4, 6, 7, 8] if "n" in f else [1, 2, 3, 4, 5, 6, 7, 8]), f)
    main, thr, rest = split(moves, op, race)
    thr = " | ".join(t + " xl" if int(lock) else t for t in thr.split(" | "))
    return "size=%s max=400 lock=%s | %s W %s %s W destroy | %s" % (size, lock, main, rest + " " + rest, rnd.choice(["W st nm", "abort W st", ""]), thr)

def pool_script(conf, moves, rnd, race):
    kinds = ["obj", "obj", "plain", "tcls", "vcls"]
    if ".z." in moves: kinds = ["obj"]
    elif "k." not in moves and "x." not in moves and ".D." not in moves: kinds += ["scal", "cls"]
    kind = rnd.choice(kinds)
    epb = rnd.choice([1, 2, 3])
    if kind == "obj": c = "kind=obj min=72"
    elif kind == "plain": c, epb = "kind=plain n=%d" % rnd.choice([1, 3, 4, 7, 8, 12, 16, 17, 24]), 1
    elif kind == "scal": c = "kind=blk type=%s epb=%d" % (rnd.choice(["u8", "u16", "int", "i64", "dbl", "ptr"]), epb)
    else: c = "kind=blk type=%s n=%d epb=%d" % (kind, 0 if kind == "vcls" else rnd.choice([1, 3, 4, 7, 8, 12, 17]), epb)
    e = lambda: 1 if kind in ("obj", "plain") else rnd.randint(1, epb)
    def op(t, k, n):
        k = k.split(".")
        if k[0] == "n":
            f, slot = k[1], k[2]
            x = e(); thr = (x if "x" in f else 0) + 1000 * (x if "k" in f else 0) + 1000000 * (e() if "D" in f else 0)
            if kind == "obj": return "n:%d:%s:%d" % (6 if f == "z" else 3 if thr else rnd.randint(0, 5), slot, thr)
            return ("n:50:%s:%d" if kind == "plain" else "b:%s:%d") % (slot, thr)
        if k[0] == "d": return "d:%s:%d" % (k[1], rnd.randint(0, 5))
        if k[0] == "c": return "s:%s c:%s:%s" % (k[1], k[1], k[2])
        return k[0]
    main, thr, rest = split(moves, op, race)
    ty = "fill:%d:0" % (0 if kind == "obj" else 50 if kind == "plain" else 101)
    return "%s size=%d | %s W %s W st drain st %s st drain st | %s" % (c, rnd.choice([1, 2]), main, rest + " " + rest, ty, thr)

SPECS = {
    "sem": dict(exe="h_sem", quick=[("GenSemaphore", "GenSemaphore")], script=sem_script, never=(), props=["C01", "C02", "C03", "C04", "C05"]),
    "mutex": dict(exe="h_mutex", quick=[("GenMutex", "GenMutex")], thorough=[("GenMutex", "GenMutex4")], script=mutex_script, never=("unlock", "eunlock", "elock"), props=["C06"]),
    "ring": dict(exe="h_ring", quick=[("GenRing", "GenRing")], script=ring_script, never=("flush", "prime"), props=["C08", "C09", "C10"]),
    "pool": dict(exe="h_pool", quick=[("GenPool", "GenPool")], script=pool_script, never=(), props=["C11", "C12", "C13", "C14"]),
    "mq": dict(exe="h_mq", quick=[("GenMq", "GenMq"), ("GenMq", "GenMqThrow"), ("GenMq", "GenMqLock")], script=mq_script, never=("purge",),
               only=dict(GenMqLock=["C17"]), props=["C15", "C16", "C17", "C18", "C19"]),
}

def scenarios(prop, tier, seed, tmp, nquick=1200):
    """-> scripts, coverage"""
    L, cov = [], []
    for c, g in SPECS.items():
        if prop not in g["props"]:
            continue
        mods = [m for m in (g["quick"] if tier == "quick" else g.get("thorough", g["quick"])) if prop in g.get("only", {}).get(m[1], [prop])]
        for module, cfg in mods:
            ws, st = words(module, cfg, tmp)
            rnd = random.Random(seed * 7 + 3)
            rnd.shuffle(ws)
            n = len(ws) if tier != "quick" else nquick // len(mods)
            k = g["props"].index(prop) * n % len(ws)
            sel = (ws + ws)[k:k + min(n, len(ws))]
            raced = 0
            for conf, moves in sel:
                race = 2 if may_race(moves, g["never"]) else 0
                raced += race > 0
                kw = dict(bound=2, maxexec=40 if tier == "quick" else 300, random=15 if tier == "quick" else 60) if race else dict(bound=0, maxexec=6, random=0)
                L.append(dict(comp=c, exe=g["exe"], script=g["script"](conf, moves, rnd, race), props=set(g["props"]), gen=cfg, **kw))
            cov.append(dict(generator=cfg, states=st[0], transitions=st[1], behaviours=len(ws), replayed=len(sel), with_last_moves_at_once=raced))
    return L, cov
