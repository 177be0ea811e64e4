"""Runs cases through the real code and its traces through TLC."""
import os, sys, json, subprocess, shutil, time, tempfile, re, concurrent.futures as cf
import build

ROOT = build.ROOT
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NW = 8

class Infra(Exception): pass

def tlc_classpath():
    d = os.path.dirname(JAR)
    return ":".join([JAR] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != os.path.basename(JAR)])

def run_tlc(module, cfg, env=None, args=(), timeout=800, heap="1500m", workers="1", cwd=None, extra_java=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", *extra_java, "-cp", tlc_classpath(), "tlc2.TLC",
           "-metadir", meta, "-workers", workers, "-noTE", "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=cwd or SPEC)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)

_scratch = None
def scratch():
    global _scratch
    if not _scratch:
        os.makedirs(os.path.join(ROOT, "build", "tmp"), exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=os.path.join(ROOT, "build", "tmp"))
        import atexit; atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def engine(libdir, cases, tag):
    d = os.path.join(scratch(), "e" + tag); os.makedirs(d, exist_ok=True)
    cf_, out = os.path.join(d, "cases"), os.path.join(d, "out")
    with open(cf_, "w") as f:
        for c in cases: f.write(c.text())
    e = dict(os.environ); e["MALLOC_PERTURB_"] = "165"
    p = subprocess.run([os.path.join(libdir, "engine"), libdir, cf_, out, os.path.join(d, "s")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=850)
    if p.returncode: raise Infra("engine failed: " + p.stdout.decode(errors="replace")[-2000:])
    evs = {}
    with open(out, errors="replace") as f:
        for line in f:
            try: j = json.loads(line)
            except ValueError:       # the code made the harness write something that is no trace: a failure of that case
                m = re.match(r'\{"case":"([^"]*)","op":(\d+)', line)
                if not m: raise Infra("unreadable output of the engine: " + line[:300])
                j = {"case": m.group(1), "op": int(m.group(2)), "ev": "crash", "opmax": int(m.group(2)), "why": "unreadable output", "msg": line[:200]}
            evs.setdefault(j["case"], []).append(j)
    shutil.rmtree(d, ignore_errors=True)
    return evs

def merge(case, evs):
    """The events of one case as streams for the specification: a list of virtual cases."""
    streams, crash = {}, None
    def put(vc, n, e): 
        if vc not in streams: streams[vc] = [{"case": vc, "op": -1, "ev": "case", "n": n, "in": {"x": 0}, "out": []}]
        streams[vc].append(e)
    put_main = case.id
    streams[put_main] = [{"case": put_main, "op": -1, "ev": "case", "n": case.n, "in": {"x": 0}, "out": []}]
    for e in sorted((e for e in evs if "out" in e), key=lambda e: e["op"]):
        k = e["op"]; kind, toks, inp, groups = case.ops[k]
        inp = dict(inp); inp.setdefault("x", 0)
        if groups is None:
            o = e["out"]
            if all("skip" in x for x in o): continue
            put(case.id, case.n, {"case": case.id, "op": k, "ev": kind, "in": inp, "out": o})
        else:
            for gr in groups:
                o = [e["out"][r] for r in gr["ranks"]]
                i2 = dict(gr.get("in", inp)); i2.setdefault("x", 0)
                put(gr["vc"], len(gr["ranks"]), {"case": gr["vc"], "op": k, "ev": gr.get("ev", kind), "in": i2, "out": o})
    for e in evs:
        if e["ev"] == "crash": crash = e
    r = []
    for vc in streams:
        r += streams[vc] + [{"case": vc, "op": 10**6, "ev": "endcase", "in": {"x": 0}, "out": []}]
    return r, crash

BAD = re.compile(r'^"BAD (.*)"$')
FAILED = re.compile(r"(\d+) states generated, \d+ distinct states found")
def tlc_trace(events, tag, module="Trace.tla", cfg="Trace.cfg"):
    """Validates the events.  An event the specification cannot even evaluate (it shows something no graph can
    be) is a failure of its case ("unexplained"); the rest of that case is left out and the others go on."""
    d = os.path.join(scratch(), "t" + tag); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "trace.ndjson"); bads, todo, n, again = [], events, len(events), 0
    while True:
        with open(p, "w") as f:
            for e in todo: f.write(json.dumps(e, separators=(",", ":")) + "\n")
        rc, out = run_tlc(module, cfg, env={"TRACE": p})
        for line in out.splitlines():
            m = BAD.match(line)
            if m: bads.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if '"DONE"' in out: break
        m = FAILED.findall(out); k = int(m[-1]) - 1 if m else -1
        infra = rc == -1 or not 0 <= k < len(todo) or todo[k]["ev"] in ("case", "endcase") or any(x in out for x in ("OutOfMemory", "StackOverflow", "Parsing or semantic"))
        if infra or again >= 40:
            if not infra and bads: break     # enough has been seen
            keep = os.path.join(ROOT, "build", "failed-trace"); os.makedirs(keep, exist_ok=True)
            shutil.copy(p, os.path.join(keep, "trace.ndjson")); open(os.path.join(keep, "tlc.out"), "w").write(out)
            raise Infra("TLC did not finish the trace: " + "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing", "Semantic proc")))[-1500:])
        again += 1; e = todo[k]
        bads.append({"case": e["case"], "op": e["op"], "ev": e["ev"], "bad": ["*:unexplained"]})
        while k < len(todo) and not (todo[k]["ev"] == "endcase" and todo[k]["case"] == e["case"]): k += 1
        todo = todo[k + 1:]
        if not todo: break
    shutil.rmtree(d, ignore_errors=True)
    return bads, n

def chunks(xs, k):
    r = [[] for _ in range(k)]
    for i, x in enumerate(xs): r[i % k].append(x)
    return [x for x in r if x]

def validate(libdir, cases, nw=NW, post=None):
    """Runs all cases; returns (bads by case id, crashes by case id, number of events)"""
    byid = {c.id: c for c in cases}
    assert len(byid) == len(cases), "case ids repeat"
    bads, crashes, nev = {}, {}, 0
    stats = {}
    def shard(i, cs):
        evs = engine(libdir, cs, "%d" % i)
        stream, cr = [], {}
        for c in cs:
            s, k = merge(c, evs.get(c.id, []))
            if post: s = post(c, s)
            stream += s
            if k: cr[c.id] = k
        for e in stream: stats[e["ev"]] = stats.get(e["ev"], 0) + 1
        b, n = tlc_trace(stream, "%d" % i)
        return b, cr, n
    with cf.ThreadPoolExecutor(nw) as ex:
        for f in [ex.submit(shard, i, cs) for i, cs in enumerate(chunks(cases, nw))]:
            b, cr, n = f.result(); nev += n
            for x in b: bads.setdefault(x["case"].split("#")[0], []).append(x)
            crashes.update(cr)
    return bads, crashes, nev, stats
