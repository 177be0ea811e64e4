#!/usr/bin/env python3
"""check.py Cxx [--thorough] [--replay FILE]: decides one property on /repo's working tree."""
import sys, os, json, time, re, collections, traceback, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run, world, gens

ROOT = build.ROOT
KNOWN = os.path.join(ROOT, "known-findings.txt")

def known(pid):
    """lines `known: property=<id> match=<clause or crash text> [case=<id>] :: <what fails>`"""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+)(?: case=(\S+))? :: (.*)", line)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3), m.group(4)))
    return r

def failing(pid, case, bads, crash):
    """the failures of a case that count against the property"""
    out = []
    for b in bads:
        for c in b["bad"]:
            if c.startswith((pid + ":", "*:")): out.append("%s@%s" % (c.split(":", 1)[1], b["ev"]))
    if crash is not None:
        k = crash.get("op", -1)
        kind = case.ops[k][0] if 0 <= k < len(case.ops) else "?"
        out.append("crash@%s %s %s" % (kind, crash.get("why", ""), crash.get("msg", "")[-300:].replace("\n", " ")))
    return out

STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
def model_check(spec, tier):
    t = time.time()
    args = list(spec.get("args", ()))
    rc, out = run.run_tlc(spec["module"], spec["cfg"], args=args, timeout=spec.get("timeout", 600), heap=spec.get("heap", "3g"), workers=spec.get("workers", "2"), env=spec.get("env"))
    m = STATES.findall(out)
    ok = rc == 0 and "No error has been found" in out
    if not ok: raise run.Infra("the model %s/%s did not check: %s" % (spec["module"], spec["cfg"], out[-2500:]))
    g, d = map(int, m[-1]) if m else (0, 0)
    return {"model": spec["module"] + "/" + spec["cfg"], "generated": g, "distinct": d, "seconds": round(time.time() - t, 1), "about": spec.get("about", "")}

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    pid = a[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = gens.PROPS[pid]
    t0 = time.time()
    lib = build.build()
    replay = None
    for i, x in enumerate(sys.argv):
        if x == "--replay": replay = sys.argv[i + 1]
    if replay:
        a.remove(replay) if replay in a else None
        j = json.load(open(replay)); cases = [world.Case.of_json(c) for c in j["cases"]]
        bads, crashes, nev, st = run.validate(lib, cases, 1, P["post"])
        bad = False
        for c in cases:
            f = failing(pid, c, bads.get(c.id, []), crashes.get(c.id))
            for x in f: print("%s: %s" % (c.id, x)); bad = True
        if bad: print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1 if bad else 0)
    rep, rnd = gens.replayed(pid, tier, seed), P["gen"](seed, tier)
    cases = rep + rnd
    mc = [m for m in P["mc"] if tier in m.get("tiers", ("quick", "thorough"))]
    with cf.ThreadPoolExecutor(3) as ex:
        fm = [ex.submit(model_check, m, tier) for m in mc]
        bads, crashes, nev, st = {}, {}, 0, collections.Counter()
        # in slices, to bound the size of each trace; some of both kinds come first, should the time not reach for all
        step = 4000
        cut = lambda x: [x[i:i + step] for i in range(0, len(x), step)]
        if tier == "thorough": x, y = cut(rnd), cut(rep); slices = x[:1] + y[:1] + x[1:] + y[1:]
        else: slices = cut(cases)
        done = []
        for sl in slices:
            if tier == "thorough" and done and time.time() - t0 > 720: break
            b, c, n, s = run.validate(lib, sl, run.NW, P["post"])
            bads.update(b); crashes.update(c); nev += n; st.update(s); done += sl
        cases = done
        models = [f.result() for f in fm] + gens.GENERATED
    byid = {c.id: c for c in cases}
    susp = [k for k in byid if (k in bads or k in crashes) and failing(pid, byid[k], bads.get(k, []), crashes.get(k))]
    other = collections.Counter(c for k in bads for b in bads[k] for c in b["bad"] if not c.startswith((pid + ":", "*:")))
    # confirm by running the suspects again; a case judged in company (`with`) runs with its companions
    kf = known(pid); violations, seenkf = [], {}
    if susp:
        again = susp[:12]
        comp = {k: [k] + [x for x in byid[k].meta.get("with", []) if x != k] for k in again}
        need = {x for k in again for x in comp[k]}
        b2, c2, _, _ = run.validate(lib, [byid[k] for k in byid if k in need], min(run.NW, max(1, len(need) // 2)), P["post"])
        for k in again:
            f = failing(pid, byid[k], b2.get(k, []), c2.get(k))
            fresh = []
            for x in f:
                hit = [w for m, cid, w in kf if x.startswith(m) and (cid is None or cid == k)]
                if hit: seenkf[hit[0]] = 1
                else: fresh.append(x)
            if fresh: violations.append((k, fresh, comp[k]))
    for w in seenkf: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    missing = [k for k in P["need"] if not st.get(k)]
    if missing and not crashes: raise run.Infra("vacuous: no event of kind %s was validated" % missing)
    rdir = os.path.join(ROOT, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    for k, f, comp in violations[:5]:
        p = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"\W+", "_", k)))
        json.dump({"property": pid, "failures": f, "cases": [byid[x].as_json() for x in comp]}, open(p, "w"))
        print("case %s: %s" % (k, "; ".join(f)[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    def sample(c): return {"case": c.id, "processes": c.n, "operations": ["%s %s" % (o[0], " | ".join(x[:60] for x in o[1][:2])) for o in c.ops[:6]]}
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(m["distinct"] for m in models) + nev + 1, "transitions": sum(m["generated"] for m in models) + nev,
                       "traces_validated_against_impl": len(cases), "trace_events": nev, "events_by_kind": dict(st),
                       "models": models, "distinct_scripts": len({c.text().split("\n", 1)[1] for c in cases}),
                       "processes": dict(collections.Counter(str(c.n) for c in cases)), "crashed_cases": len(crashes),
                       "clauses_of_other_properties_failing": dict(other),
                       "samples": [sample(c) for c in cases[:2]] + ([sample(cases[len(cases) // 2])] if cases else [])},
          "assumptions": ["MPI, the operating system's files and the external partitioners behave as their stand-ins in harness/ do",
                          "TLC and the JSON module evaluate the specification correctly"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d traces, %d events, %d models, %.1f s, %s" % (pid, tier, len(cases), nev, len(models), wall, "%d violations" % len(violations) if violations else "held"))
    if other: print("  failing clauses that belong to other properties:", dict(other.most_common(6)))
    sys.exit(1 if violations else 0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.exit(2)
