import random
def S(script, **kw):
    d = dict(comp="mutex", exe="h_mutex", script=script, props={"C06"}, bound=2, maxexec=800, random=200)
    d.update(kw)
    return d
def scenarios(tier, seed):
    L = [
        S("x=1 | W | lock unlock | lock unlock | lock unlock"),
        S("x=1 | W | g g | g g | g g", bound=3, maxexec=3000),
        S("x=1 | W | u u | g u | g u"),
        S("x=1 | W | try unlock | lock unlock | try"),
        S("x=1 | W unlock | unlock lock unlock | lock | try"),
        S("x=1 | W | lock unlock unlock | unlock lock unlock | try unlock"),
        S("x=1 | W | nlock unlock | lock nunlock | ntry nunlock | try unlock"),
        S("x=1 | W | lock try unlock | g | u try"),
        S("x=1 | W lock W unlock | lock | lock | g"),
        S("x=1 | lock W unlock W | lock unlock | lock unlock | g | u"),
        S("x=1 | try try unlock try unlock unlock | lock unlock"),
        S("x=1 | lock unlock lock unlock try unlock g u g nlock nunlock ntry nunlock"),
    ]
    for e in (22, 11, 35, 1, 16, 130, 131, 110, 12):
        for o in ("elock", "etry", "eunlock"):
            if e == 16 and o != "etry":
                pass
            L.append(S("x=1 | %s:%d lock %s:%d unlock try %s:%d unlock W" % (o, e, o, e, o, e), bound=0, maxexec=1, random=0))
    for o in ("mutex", "semaphore", "ring", "primed", "objectpool", "blockpool", "queue", "queuelock"):
        L.append(S("x=1 | pi:%s" % o, bound=0, maxexec=1, random=0))
    rnd = random.Random(seed * 7 + 6)
    for i in range(40 if tier == "quick" else 400):
        thr = []
        for t in range(rnd.choice([2, 3, 4])):
            o, held = [], 0
            for _ in range(rnd.randint(1, 4)):
                k = rnd.choice(["g", "u", "lu", "lu", "try", "nl", "unlock" if rnd.random() < .2 else "g"])
                o += {"lu": ["lock", "unlock"], "nl": [rnd.choice(["lock", "nlock"]), rnd.choice(["unlock", "nunlock"])]}.get(k, [k])
                if k == "try": o.append("unlock")
            thr.append(" ".join(o))
        L.append(S("x=1 | W | " + " | ".join(thr), maxexec=150, random=80))
    if tier == "thorough":
        for s in L:
            if s["maxexec"] > 1:
                s["bound"] += 1; s["maxexec"] *= 8; s["random"] *= 8
    return L
