#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decides one property; see DESIGN.md"""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import ROOT, NCPU, CheckError, log
from comps import COMPS
import props as P
from trace import run_tlc
from concurrent.futures import ThreadPoolExecutor

def known_findings(prop):
    """lines 'known: property=<id> match=<json>' ; 'fixed:' lines suppress nothing"""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known:"):
                j = json.loads(l[len("known:"):])
                if j["property"] == prop:
                    res.append(j)
    return res

def run_models(models, tmp):
    """model checking of the specifications themselves; a failure here is a defect of the specs, not of the code"""
    res = []
    def one(m):
        r = run_tlc(m["module"] + ".tla", m.get("cfg", m["module"]) + ".cfg", dict(m.get("env", {})), workers=m.get("workers", 2),
                    heap="4g", timeout=m.get("timeout", 1500), metadir=tmp)
        if r["rc"] != 0:
            raise CheckError("model %s/%s failed:\n%s" % (m["module"], m.get("cfg"), r["out"][-3000:]))
        return dict(model=m.get("cfg", m["module"]), states=r["distinct"], transitions=r["generated"], wall=round(r["wall"], 1))
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        for f in [ex.submit(one, m) for m in models]:
            res.append(f.result())
    return res

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(core.WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="chk", dir=core.WORK)
    try:
        return check(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, tmp, t0):
    scens, generated = P.scenarios(prop, tier, seed, tmp)
    scens = [s for s in scens if prop in s["props"]]
    names = sorted({s["exe"] for s in scens})
    tb = time.time()
    exes = core.build(names)
    log("[%s] build %.1fs, %d scripts" % (prop, time.time() - tb, len(scens)))
    violations = []        # (signature, replay data)
    models = P.models(prop, tier)
    pool = ThreadPoolExecutor(2)
    mf = pool.submit(run_models, models, tmp)

    te = time.time()
    hist, ends = core.explore(exes, scens, seed, tmp)
    log("[%s] %d executions, %d histories, %.1fs" % (prop, sum(e["execs"] for e in ends), len(hist), time.time() - te))
    # distinct histories per component
    per = {}
    for h in hist:
        c = scens[h.sid]["comp"]
        per.setdefault(c, {}).setdefault(tuple(h.ev), h)
    stats = dict(states=0, transitions=0, tlc=0)
    nval = 0
    rejected = []
    tv = time.time()
    for c, d in per.items():
        comp = COMPS[c]
        keys = list(d.keys())
        ok, st = core.validate(comp, keys, tmp)
        nval += len(keys)
        for k in stats: stats[k] += st[k]
        rejected += [(comp, d[k], scens[d[k].sid]) for k, o in zip(keys, ok) if not o]
    log("[%s] %d histories validated (%d rejected), %.1fs, %d states" % (prop, nval, len(rejected), time.time() - tv, stats["states"]))

    other = 0
    if rejected:
        # how far does the specification follow, and what is left when quiescence checks are waived
        rejected.sort(key=lambda r: (len(r[1].ev), len(r[1].dec), r[1].dec))
        bycomp = {}
        for r in rejected:
            bycomp.setdefault(r[0].name, []).append(r)
        for c, rs in bycomp.items():
            rs = rs[:400]
            comp = COMPS[c]
            keys = [tuple(r[1].ev) for r in rs]
            ok1, _, at1 = core.validate(comp, keys, tmp, diag=True)
            ok2, _, at2 = core.validate(comp, keys, tmp, diag=True, relax="q")
            for i, r in enumerate(rs):
                if ok1[i]:
                    raise CheckError("unstable verdict for " + r[2]["script"])
                ck = comp.cook(list(keys[i]))
                k = at1[i]
                cl = comp.classify(ck, k, None if ok2[i] else at2[i])
                if "own" in r[2]:
                    cl = cl | set(r[2]["own"].split())
                if prop in cl:
                    violations.append((comp, r[1], r[2], ck, k, sorted(cl)))
                else:
                    other += 1
                    if os.environ.get("VERIF_SHOW") and other <= int(os.environ["VERIF_SHOW"]):
                        log("  other: %s %s\n  decisions: %s" % (cl, r[2]["script"], r[1].dec))
                        for ii, e in enumerate(ck):
                            log("   %s %s" % (">>" if ii == k else "  ", e))
    model_res = mf.result()
    extra = P.extra(prop, tier, seed, tmp, exes)

    kf = known_findings(prop)
    rc = 0
    nviol = 0
    printed = set()
    rd = os.path.join(core.WORK, "replays"); os.makedirs(rd, exist_ok=True)
    for comp, h, s, ck, k, cl in violations:
        # make sure it reproduces before saying anything
        again = core.replay(exes[s["exe"]], h, s["script"])
        stable = again == list(h.ev)
        if not stable:
            again2 = core.replay(exes[s["exe"]], h, s["script"])
            ok, _ = core.validate(comp, [tuple(again2)], tmp)
            if ok[0]:
                log("[%s] not reproducible, ignored: %s" % (prop, s["script"])); continue
        sig = "%s @ %s" % (s["script"], ck[k] if k < len(ck) else "end")
        m = [f for f in kf if f["match"] in sig]
        if m:
            if m[0]["match"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (prop, m[0]["what"])); printed.add(m[0]["match"])
            continue
        nviol += 1
        if nviol <= 3:
            path = os.path.join(rd, "%s_%d.json" % (prop, nviol))
            json.dump(dict(property=prop, component=comp.name, exe=s["exe"], script=s["script"], decisions=h.dec, racy=h.racy,
                           history=list(h.ev), rejected_at=k, rejected_event=ck[k] if k < len(ck) else None, speaks_about=cl), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            log("  script: %s\n  decisions: %s\n  history (the specification cannot follow event %d):" % (s["script"], h.dec, k))
            for i, e in enumerate(ck):
                log("   %s %s" % (">>" if i == k else "  ", e))
        rc = 1
    for v in extra.get("violations", []):
        nviol += 1; rc = 1
        path = os.path.join(rd, "%s_x%d.json" % (prop, nviol))
        json.dump(v, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        log("  " + json.dumps(v)[:2000])
    samples = []
    for h in hist[:: max(1, len(hist) // 3)][:3]:
        samples.append(dict(script=scens[h.sid]["script"], decisions=h.dec, history=h.ev[:60]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=stats["states"] + sum(m["states"] for m in model_res) + extra.get("states", 0),
                            transitions=stats["transitions"] + sum(m["transitions"] for m in model_res) + extra.get("transitions", 0),
                            traces_validated_against_impl=nval + extra.get("traces", 0),
                            samples=samples + extra.get("samples", []),
                            evaluations=sum(e["execs"] for e in ends) + extra.get("executions", 0),
                            scripts=len(scens),
                            scripts_exhausted_at_preemption_bound={str(b): sum(1 for e in ends if e["bound"] == b) for b in sorted({e["bound"] for e in ends}) if b >= 0},
                            histories_rejected=len(rejected), rejected_for_other_properties=other,
                            step_limited_executions=sum(e["limited"] for e in ends),
                            generated_behaviours=generated, models=model_res, trace_states=stats["states"], tlc_trace_runs=stats["tlc"], **extra.get("coverage", {})),
              assumptions=P.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s; %d executions, %d distinct histories validated, %d model states, %.1fs" %
          (prop, "held on everything explored" if rc == 0 else "VIOLATED", ev["coverage"]["evaluations"], ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"], time.time() - t0))
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
