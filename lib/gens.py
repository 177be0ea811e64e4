"""What each property's check runs: script generators and exhaustive models."""
import random
import world
from world import Script, rand_graph, Case

def rng_of(seed, pid, i): return random.Random("%s/%s/%s" % (seed, pid, i))

# ---------------------------------------------------------------- random histories of graph operations
def sizes(rng, big=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7] if not big else [2, 3, 4, 6, 8, 11])
    return n if rng.random() < .985 else rng.choice([8, 9, 10, 12, 13, 16, 17])

def graph_for(rng, n, io=False, **kw):
    k = dict(kw)
    z = rng.random()
    if io: k["maxid"] = rng.choice([40, 1000, 2**31 - 2])
    elif z < .15: k["big"] = True
    if "nt" not in k: k["nt"] = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 4]) if rng.random() < .9 else 1
    if "nv" not in k:
        k["nv"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24])
        if rng.random() < .015: k["nv"] = rng.choice([40, 64, 90]); k["ne"] = rng.choice([20, 40, 70]); k["maxdeg"] = rng.choice([4, 8, 15, 40]); k.update({"maxid": 1000} if k.get("maxid") == 40 else {})
        elif rng.random() < .003: k["nv"] = rng.choice([150, 260, 300]); k["ne"] = rng.choice([60, 150, 280]); k["maxdeg"] = 4; k.update({"maxid": 1000} if k.get("maxid") == 40 else {})
    if k["nv"] > 10 and "ne" not in k and rng.random() < .6: k["ne"] = rng.randrange(k["nv"])
    return rand_graph(rng, n, **k)

def history(pid, seed, i, weights, steps, io=False, viaC=0.0, mode=None, init="engpar", **gkw):
    """weights: {operation: weight}"""
    rng = rng_of(seed, pid, i)
    n = sizes(rng); gkw = dict(gkw)
    if "weights" not in gkw and rng.random() < .4: gkw["weights"] = "fine"; weights = {k: w for k, w in weights.items() if k != "bal"}
    g = graph_for(rng, n, io=io or any(w in weights for w in ("save", "load", "sl")), **gkw)
    s = Script("%s-%d" % (pid, i), n, rng, mode=mode, init=init); s.fine = gkw.get("weights") == "fine"
    c = rng.choice([1, 1, 2]) if rng.random() < viaC else 0
    s.graph(g, form="c" if c else None, kind="cgraph" if c else "graph")
    ops, ws = zip(*weights.items())
    saved = []
    for k in range(rng.randrange(*steps) if rng.random() < .99 else rng.randrange(12, 25)):
        o = rng.choices(ops, ws)[0]
        one(s, rng, o, k, c)
    return s.end()

def one(s, rng, o, k, c=0):
    nt = len(s.g.E)
    if o == "mig": s.mig()
    elif o == "repart": s.repart()
    elif o == "getpart":
        if not s.oo: s.simple("setorig"); s.oo = True   # a partition map needs recorded original owners
        s.getpart(c if rng.random() < .5 else 0)
    elif o == "order": s.order(rng.randrange(2))
    elif o == "setorig": s.simple("setorig"); s.oo = True
    elif o == "resetown": s.simple("resetown"); s.oo = True
    elif o == "resetpart": s.simple("resetpart"); s.oo = True
    elif o == "setorigv" and not s.oo and not s.lost: s.setorigv()
    elif o == "rm" and nt: s.rmedges(rng.randrange(nt))
    elif o == "setw": s.setw()
    elif o == "setew" and nt: s.setew(rng.randrange(nt))
    elif o == "coords": s.coords()
    elif o == "valid": s.valid(c)
    elif o == "proj": s.proj()
    elif o == "add" and 0 < nt < 4: s.addedges()
    elif o == "sl": f = rng.choice(["", "", "a/", "b/c%d/" % k]) + "f%d" % k + rng.choice([""] * 8 + ["y" * 120 + "/" + "x" * 120, "x" * 220]); s.save(f, c); s.load(f, rng.randrange(2), c); s.save("g%d" % k, c)
    elif o == "bal" and nt:
        dims = list(range(-1, nt))
        s.balance([(d, rng.choice([1010, 1050, 1100, 1300])) for d in rng.sample(dims, rng.randrange(1, min(3, len(dims)) + 1))], sf=rng.choice([.1, .5, 1.0]), it=rng.choice([1, 2, 3]), itt=rng.choice([None, 1, 2]),
                  ghosts=rng.choice([0, 0, 1]), c=c)
    elif o == "swap":   # two partitions, back and forth
        s.known()
        own = dict(s.g.own); s.mig()
        s.mig([[(v, own[v]) for v in s.g.mine(r) if own[v] != r] for r in range(s.n)])
    elif o == "regraph":
        s.graph(rand_graph(rng, s.n), form="c" if c else None, kind="cgraph" if c else "graph")

def hist_gen(pid, n_quick, n_thorough, weights, steps, **kw):
    def gen(seed, tier):
        n = n_quick if tier == "quick" else n_thorough
        return [history(pid, seed, i, weights, steps, **kw) for i in range(n)]
    return gen

PROPS = {}
def prop(pid, gen, need, mc=(), post=None, note=""):
    """need: event kinds whose absence makes the run vacuous"""
    PROPS[pid] = dict(gen=gen, need=need, mc=list(mc), post=(lambda c, st: talk_post(c, post(c, st) if post else st)), note=note)

prop("C01", hist_gen("C01", 1600, 16000, {"mig": 6, "repart": 2, "coords": 1, "bal": .6, "order": .5, "getpart": .7, "setw": .5, "rm": .4, "swap": .6, "setew": .2}, (1, 7)), ["mig", "repart"])
prop("C02", hist_gen("C02", 1600, 16000, {"mig": 6, "repart": 1, "order": .4, "bal": .5, "setew": .7, "rm": .6, "swap": 1, "add": .3}, (1, 6)), ["mig"])
prop("C03", hist_gen("C03", 1600, 16000, {"mig": 5, "repart": 1, "order": .4, "bal": .5, "add": .6, "swap": .7, "rm": .4, "sl": .2, "setw": .4, "regraph": .4}, (0, 6)), ["graph", "mig"])
prop("C04", hist_gen("C04", 1800, 18000, {"mig": 4, "repart": 1, "order": .4, "bal": 1.5, "getpart": 5, "resetown": .7, "swap": .7, "setorigv": 2, "regraph": .3, "resetpart": .3}, (2, 9)), ["getpart", "mig"])
prop("C05", hist_gen("C05", 2000, 20000, {"proj": 1, "valid": 1, "regraph": 2, "coords": 1, "add": 1, "mig": 1}, (0, 4)), ["graph", "valid"])
prop("C06", hist_gen("C06", 1800, 18000, {"mig": 4, "repart": 1, "regraph": 1, "bal": .5, "add": .5, "rm": .4}, (0, 5)), ["graph", "mig"])
prop("C07", hist_gen("C07", 1600, 16000, {"sl": 5, "mig": 2, "bal": .4, "coords": 1, "setw": .5, "setew": .5, "rm": .5}, (1, 5), viaC=.2), ["save", "load"])
prop("C23", hist_gen("C23", 1800, 18000, {"setw": 3, "setew": 3, "coords": 3, "rm": 4, "mig": 2, "bal": .5, "add": .7, "sl": .5, "valid": .3, "getpart": .3, "repart": .4}, (2, 8)), ["setw", "setew", "coords", "rmedges"])

# ---------------------------------------------------------------- tags
def tag_case(seed, i):
    rng = rng_of(seed, "C08", i); n = sizes(rng); s = Script("C08-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    s.graph(graph_for(rng, n, nt=rng.choice([0, 1, 1, 2, 2, 3])))
    for k in range(rng.randrange(2, 8)):
        o = rng.choice(["tags", "tags", "tags", "gtag", "gtag", "all", "ghostget", "mig", "rm", "setw", "add", "setew"])
        if o == "tags": s.tagcmds(12)
        elif o == "gtag": s.gtag(); s.ghostget()
        elif o == "all": s.settag_all(); s.gtag(); s.ghostget()
        elif o == "ghostget": s.ghostget()
        elif o == "mig": s.mig(); s.droptags(); s.gtags = []
        elif o == "rm" and s.g.E:
            t = rng.randrange(len(s.g.E)); s.rmedges(t); s.droptags(lambda e: e == t); s.gtags = []
        elif o == "setw": s.setw()
        elif o == "setew" and s.g.E: s.setew(rng.randrange(len(s.g.E)))
        elif o == "add" and 0 < len(s.g.E) < 4: s.addedges(); s.gtags = []
    s.tagcmds(8); s.ghostget()
    return s.end()
prop("C08", lambda seed, tier: [tag_case(seed, i) for i in range(1600 if tier == "quick" else 16000)], ["tags", "gtag", "ghostget"])

# ---------------------------------------------------------------- second adjacencies
def adj_case(seed, i):
    rng = rng_of(seed, "C21", i); n = sizes(rng); s = Script("C21-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    s.graph(graph_for(rng, n, nt=rng.choice([1, 1, 2, 2, 3, 4])))
    for k in range(rng.randrange(2, 8)):
        o = rng.choice(["adj"] * 6 + ["reada", "reada", "mig", "rm", "setw", "add", "sl"])
        if o == "adj" and s.g.E: s.adj(rng.choice(["vev", "eve"]), rng.randrange(len(s.g.E)), rng.randrange(2))
        elif o == "reada": s.reada()
        elif o == "mig": s.mig(); s.made = set()
        elif o == "rm" and len(s.g.E) > 1:
            t = rng.randrange(len(s.g.E)); s.rmedges(t); s.made = {x for x in getattr(s, "made", ()) if x[1] != t}
        elif o == "setw": s.setw()
        elif o == "add" and 0 < len(s.g.E) < 4 and not getattr(s, "made", None): s.addedges()
        elif o == "sl" and max(s.g.w, default=0) < 2**31 and all(e[0] < 2**31 for E in s.g.E for e in E): s.save("f%d" % k); s.load("f%d" % k, rng.randrange(2)); s.made = set()
    return s.end()
prop("C21", lambda seed, tier: [adj_case(seed, i) for i in range(1800 if tier == "quick" else 18000)], ["vev", "eve", "reada"])

# ---------------------------------------------------------------- metrics
def num(x, scale):
    x = x.lower()
    if "nan" in x or "inf" in x: return -2000000001
    v = float(x) * scale
    return int(v + .5) if v >= 0 else -int(-v + .5)
def parse_eval(lines, name=None):
    """the printed evaluation as numbers; ok = 1 when it has exactly the expected lines"""
    e = {"ok": 1, "empty": -1, "dis": [0, 0], "nb": [0] * 4, "lv": [0] * 4, "tv": [0] * 4, "t": []}
    import re
    pat = [(r"Empty Parts: (-?\d+)$", "empty", 1), (r"Disconnected Components: <max,tot> (\S+) (\S+)$", "dis", 2),
           (r"Neighbors: <max,min,avg,imb> (\S+) (\S+) (\S+) (\S+)$", "nb", 4), (r"Local Vertex: <max,min,avg,imb> (\S+) (\S+) (\S+) (\S+)$", "lv", 4),
           (r"Total Vertex: <max,min,avg,imb> (\S+) (\S+) (\S+) (\S+)$", "tv", 4)]
    seen = {}
    for ln in lines:
        ln = ln.strip()
        if not ln: continue
        if not ln.startswith("PARTITION %s:" % name if name is not None else "PARTITION "):
            if "PARTITION" not in ln: continue
        for p, k, n in pat:
            m = re.search(p, ln)
            if m: 
                seen[k] = seen.get(k, 0) + 1
                e[k] = int(m.group(1)) if n == 1 else [num(x, 1000) for x in m.groups()]
        m = re.search(r"Edges type (\d+): <max,min,avg,imb> (\S+) (\S+) (\S+) (\S+)$", ln)
        if m:
            if int(m.group(1)) != len(e["t"]): e["ok"] = 0
            e["t"].append({"e": [num(x, 1000) for x in m.groups()[1:]], "c": [0, 0]}); seen["t"] = seen.get("t", 0) + 1
        m = re.search(r"Edges type (\d+) Cut: <max,tot> (\S+) (\S+)$", ln)
        if m:
            if int(m.group(1)) != len(e["t"]) - 1: e["ok"] = 0
            else: e["t"][-1]["c"] = [num(x, 1000) for x in m.groups()[1:]]
            seen["c"] = seen.get("c", 0) + 1
    if any(seen.get(k, 0) != 1 for k in ("empty", "dis", "nb", "lv", "tv")) or seen.get("t", 0) != len(e["t"]) or seen.get("c", 0) != len(e["t"]): e["ok"] = 0
    return e
def parse_stats(lines):
    import re
    d = {"ok": 1, "hy": [], "v": [], "e": [], "p": []}
    for ln in lines:
        ln = ln.strip()
        m = re.search(r"(Hyper )?N-graph Status$", ln)
        if m: d["hy"].append(1 if m.group(1) else 0)
        m = re.search(r"Vertices: (\d+)$", ln)
        if m: d["v"].append(int(m.group(1)))
        m = re.search(r"(Edges|Pins):((?: *Type \d+: \d+)*)$", ln)
        if m:
            x = re.findall(r"Type (\d+): (\d+)", m.group(2))
            if [int(a) for a, _ in x] != list(range(len(x))): d["ok"] = 0
            d["e" if m.group(1) == "Edges" else "p"].append([int(b) for _, b in x])
    return d
def parse_talk(lines):
    """what a balancing run said, in order; k is the kind of the message"""
    import re
    r = []
    def m(k, d=-9, n=-1, b=-1, imb=(), why=""): r.append({"k": k, "d": d, "n": n, "b": b, "imb": [num(x, 10000) for x in imb], "why": why})
    why = {"target tolerance reached": "tolerance", "stagnation": "stagnation", "nothing was migrated": "nothing", "max iterations": "max", None: ""}
    for ln in lines:
        ln = ln.strip()
        if "Part Weight Balancer" in ln or "part weight balancer" in ln or "Git hash" in ln: continue
        for p, f in TALK:
            x = re.search(p, ln)
            if x:
                g = x.groups()
                if f == "start": m(f, -1 if g[0] == "vertices" else int(g[1]), imb=g[2].split())
                elif f == "step": m(f, imb=g[0].split())
                elif f == "trim": m(f, n=int(g[0]), b=int(g[1]))
                elif f == "mig": m(f, n=int(g[0]))
                elif f == "done": m(f, -1 if g[0] == "vertices" else int(g[1]), n=int(g[2]), why=why.get(g[3], "?"))
                elif f in ("total", "whole", "conv"): m(f, n=int(g[0]))
                elif f == "side": m(f, n=num(g[0], 1000))
                elif f == "wstart": m(f, imb=g[0].split())
                else: m(f)
                break
    return r
TALK = [(r"Starting diffusion on (vertices|edge type (\d+)) with imbalances: *(.*)$", "start"), (r"Imbalances <v, e0, \.\.\.>: *(.*)$", "step"),
        (r"Side Tolerance is: (\S+)$", "side"), (r"Plan was trimmed from (\d+) to (\d+) vertices", "trim"), (r"Migrating (-?\d+) (?:vertices|weight) took", "mig"),
        (r"Completed diffusion for (vertices|edge type (\d+)) in (\d+) steps and \S+ seconds(?: due to (.*?))?\.$", "done"),
        (r"Diffusion completed in (\d+) iterations in", "total"), (r"ran in serial", "serial"), (r"Ran in serial", "serial"),
        (r"Starting weight diffusion with imbalance: *(.*)$", "wstart"), (r"ran to completion in (\d+) iterations", "whole"), (r"converged in (\d+) iterations", "conv"), (r"ENGPAR", "other")]
def parse_parts(lines):
    """what the part weight balancer announced: which target, and the imbalance its plan leads to (thousandths)"""
    import re
    r = []
    for ln in lines:
        m = re.search(r"Starting part weight balancer on type (-?\d+)", ln)
        if m: r.append({"d": int(m.group(1)), "i": []})
        m = re.search(r"Part Weight Balancer finished with imbalance (\S+)", ln)
        if m:
            if not r: r.append({"d": -9, "i": []})
            r[-1]["i"].append(num(m.group(1), 1000))
    return r
def parse_times(lines):
    """the times a balancing run told (microseconds; ratios in millionths, shares in hundredths of a percent)"""
    import re
    r = {"step": [], "mig": [], "done": [], "total": [], "mt": [], "maxr": [], "minr": [], "took": [], "plan": [], "dist": []}
    us = lambda x: num(x, 1000000)
    for ln in lines:
        def at(p, f):
            x = re.search(p, ln)
            if x: f(*x.groups())
        at(r"Step took (\S+) seconds", lambda x: r["step"].append(us(x)))
        at(r"Migrating -?\d+ vertices took (\S+) seconds", lambda x: r["mig"].append(us(x)))
        at(r"Completed diffusion for .* and (\S+) seconds", lambda x: r["done"].append(us(x)))
        at(r"Diffusion completed in \d+ iterations in (\S+) seconds", lambda x: r["total"].append(us(x)))
        for k, p in (("mt", r"max migration time .* = <(.*)>"), ("maxr", r"max migration ratios .* = <(.*)>"), ("minr", r"min migration ratios .* = <(.*)>")):
            at(p, lambda x: r[k].append([us(y) for y in x.split(",")]))
        for k, p in (("took", "^Migration took"), ("plan", "^Planning took"), ("dist", r"^Distance Computation \(part of Planning\) took")):
            at(p.replace("^", "") + r" (\S+) s(?:econds)?, (\S+)% of the total time", lambda x, y: r[k].append([us(x), num(y, 100)]))
    return r
def parse_levels(lines, n):
    """what every process told, attempt by attempt, of its boundary, the loads around it and the amounts to send (thousandths)"""
    import re
    r = {k: [[] for _ in range(n)] for k in "swt"}
    cur = None
    for ln in lines:
        m = re.search(r"ENGPAR (\d+): (Sides|Weights|Targets) *$", ln)
        if m:
            cur = []
            if int(m.group(1)) < n: r[m.group(2)[0].lower()][int(m.group(1))].append(cur)
            continue
        m = re.match(r" *(-?\d+) -> (\S+)$", ln)
        if m and cur is not None: cur.append([int(m.group(1)), num(m.group(2), 1000)])
        else: cur = None
    return r
def talk_post(case, stream):
    for e in stream:
        if e["ev"] in ("balance", "wbal"):
            for r, o in enumerate(e["out"]):
                if "lines" in o:
                    x = o.pop("lines")
                    if r == 0 and e["ev"] == "balance": o["tells"] = parse_parts(x)
                    if r == 0: o["say"] = parse_talk(x) if e["in"].get("talk") else []
                    if r == 0 and e["ev"] == "balance": o["took"] = parse_times(x)
                    if r == 0: o["levels"] = parse_levels(x, len(e["out"]))
    return stream
def metrics_post(case, stream):
    for e in stream:
        if e["ev"] in ("stats", "bigstats"): e["out"] = [{"s": parse_stats(e["out"][0].get("lines", []))}] + [{} for _ in e["out"][1:]]
        if e["ev"] == "eval": e["out"][0] = {"e": parse_eval(e["out"][0].get("lines", []))}
        elif e["ev"] == "imb":
            o = e["out"][0]; o["txt"] = [num(x, 10000) for x in o["txt"].split()] if isinstance(o.get("txt"), str) else []
            for x in e["out"][1:]: x.pop("txt", None)
    return stream
def metric_case(seed, i):
    rng = rng_of(seed, "C17", i); n = sizes(rng); s = Script("C17-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    def graph():
        if rng.random() < .5: return mesh_graph(rng, n, hy=rng.random() < .65, small=rng.random() < .6)
        return graph_for(rng, n, nt=rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 4]))
    s.graph(graph())
    for k in range(rng.randrange(2, 6)):
        o = rng.choice(["eval"] * 4 + ["imb"] * 2 + ["stats"] * 2 + ["bigstats"] * (rng.random() < .1) + ["mig", "mig", "regraph", "setew", "coords", "rm", "setw"])
        if o == "eval": s.evaluate()
        elif o == "imb": s.imb(rng.randrange(2))
        elif o == "stats": s.simple("stats")
        elif o == "bigstats": s.bigstats()
        elif o == "mig": s.mig()
        elif o == "regraph": s.graph(graph())
        else: one(s, rng, o, k)
    s.evaluate(c=rng.choice([1, 2]) if rng.random() < .2 else 0); s.imb(rng.randrange(2))
    return s.end()
prop("C17", lambda seed, tier: [metric_case(seed, i) for i in range(1200 if tier == "quick" else 12000)], ["eval", "imb"], post=metrics_post)

# ---------------------------------------------------------------- selection order
def queue_case(seed, i):
    rng = rng_of(seed, "C19", i); n = sizes(rng); s = Script("C19-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    def graph():
        if rng.random() < .4: return world.pieces_graph(rng, n)
        if rng.random() < .7: return mesh_graph(rng, n, hy=rng.random() < .75, small=rng.random() < .5)
        return graph_for(rng, n, nt=rng.choice([1, 1, 2]))
    s.graph(graph())
    for k in range(rng.randrange(1, 5)):
        s.queue(1 if rng.random() < .75 else 0, rng.randrange(2))
        o = rng.choice(["mig", "regraph", "none"])
        if o == "mig": s.mig()
        elif o == "regraph": s.graph(graph())
    s.queue(1, rng.randrange(2)); s.queue(0, 0)
    return s.end()
prop("C19", lambda seed, tier: [queue_case(seed, i) for i in range(1500 if tier == "quick" else 15000)], ["queue"])

# ---------------------------------------------------------------- load balancing
def star_graph(rng, n):
    """one edge that joins very many vertices, most of them on one process"""
    from world import Graph
    nv = rng.choice([105, 125, 140]); g = Graph(n, True)
    pool = rng.sample(range(400), nv)
    for k, v in enumerate(pool): g.w[v] = 1000; g.own[v] = 0 if k < 102 else rng.randrange(n)
    pins = list(pool); rng.shuffle(pins)
    g.E.append([(1, 1000, pins)] + [(3 + k, 1000, rng.sample(pool, 2)) for k in range(10)]); g.hasEW.append(False)
    return g
def balance_case(pid, seed, i, hyp=.7, one=.4, verbs=(0, 0, 0, 1, 2, 3)):
    rng = rng_of(seed, pid, i)
    n = rng.choice([2, 2, 3, 3, 4, 4, 5, 6]) if rng.random() < .97 else 1
    s = Script("%s-%d" % (pid, i), n, rng)
    if rng.random() < .15: s.order(0)
    z = rng.random()
    g = mesh_graph(rng, n, hy=rng.random() < hyp, small=rng.random() < .35) if z < .85 else rand_graph(rng, n, nt=rng.choice([1, 2]), nv=rng.choice([4, 8, 12, 16]), hy=rng.random() < hyp)
    if i % 75 == 11: g = star_graph(rng, n)
    if i % 45 == 5: g = mesh_graph(rng, n, hy=rng.random() < hyp, nt=rng.choice([6, 7]), small=True)
    heavy = pid == "C12" and i % 3 == 0      # several completed types of edges whose weights differ much
    if heavy:
        g = mesh_graph(rng, n, hy=rng.random() < hyp, nt=rng.choice([2, 3]), wts=rng.choice([[1000], [1000, 2000]]))
        for t in range(len(g.E)): f = rng.choice([1, 1, 4, 8]); g.E[t] = [(e[0], e[1] * f) + tuple(e[2:]) for e in g.E[t]]; g.hasEW[t] = True
    s.graph(g)
    if rng.random() < .2: s.coords()
    for k in range(rng.choice([1, 1, 2])):
        nt = len(g.E); dims = list(range(-1, nt))
        if rng.random() < one: ds = [rng.choice([-1] + dims)]
        else: ds = rng.sample(dims, len(dims) if nt > 4 else rng.randrange(1, len(dims) + 1))
        pri = [(d, rng.choice([1010, 1050, 1100, 1100, 1250, 1500])) for d in ds]
        if heavy: pri = [(d, rng.choice([1010, 1050, 1100, 1250])) for d in rng.sample(range(nt), nt)[:2] + [-1]]
        elif len(pri) > 1 and rng.random() < .25: pri = [(d, 8000) for d, _ in pri[:-1]] + [(pri[-1][0], rng.choice([1010, 1050, 1100]))]   # earlier targets that leave room for everything
        if nt > 4 and rng.random() < .7: pri = [(d, 3000) for d, _ in pri[:-2]] + [(d, 1010) for d, _ in pri[-2:]]
        kw = dict(sf=rng.choice([.1, .1, .2, .3, .5, .5, 1.0]), it=rng.choice([None, None, 1, 2, 3, 5, 0]), itt=rng.choice([None, None, 1, 2, 4, 7]))
        if kw["it"] is None and kw["itt"] is None: kw["it"] = rng.choice([6, 10, 15, 25])
        if rng.random() < .25: kw["sides"] = rng.randrange(nt)
        if rng.random() < .2: kw["ghosts"] = 1
        if rng.random() < .35: kw["dq"] = rng.randrange(2)
        if rng.random() < .35: kw["push"] = rng.randrange(2)
        if rng.random() < .12: kw["mincon"] = rng.choice([2, 2, 3])
        if rng.random() < .12: kw["pwb"] = 1
        if rng.random() < .15: kw["cut"] = rng.choice([.5, 1.0, 2.0])
        if rng.random() < .15: kw["c"] = rng.choice([1, 1, 2]); kw["verb"] = rng.choice([0, 1, 2])
        kw.setdefault("verb", rng.choice(verbs))
        if rng.random() < .1: kw["toggle"] = 1
        if not s.lost and rng.random() < .2:    # every target within its own tolerance, some only just
            gh = kw.get("ghosts", 0); q = []
            for d in rng.sample(dims, rng.randrange(1, len(dims) + 1)):
                x = s.imbalance(d, gh)
                q.append((d, 1100 if x is None else max(1010, x + rng.choice([1, 1, 5, 100, 900]))))
            if all(t < 8000 for _, t in q): pri = q
        s.balance(pri, **kw)
        if s.oo and rng.random() < .3: s.getpart()
        if rng.random() < .3: s.valid()
    return s.end()
from world import mesh_graph
for _p, _n, _kw in (("C11", 900, {}), ("C12", 900, dict(one=.08)), ("C13", 900, dict(hyp=.6, one=.6))):
    prop(_p, (lambda p, n, kw: lambda seed, tier: [balance_case(p, seed, i, **kw) for i in range(n if tier == "quick" else 10 * n)])(_p, _n, _kw), ["balance"])

def selection_case(pid, seed, i):
    """one target at a time, so that nothing but the selection's own options shapes the plan"""
    rng = rng_of(seed, pid, i)
    n = rng.choice([2, 2, 3, 3, 4, 5, 6])
    s = Script("%s-%d" % (pid, i), n, rng)
    if rng.random() < .15: s.order(0)
    hy = rng.random() < .7
    g = mesh_graph(rng, n, hy=hy, small=rng.random() < .3) if rng.random() < .7 else rand_graph(rng, n, nt=rng.choice([1, 2]), nv=rng.choice([6, 10, 14, 18]), maxdeg=rng.choice([4, 7, 10]), place=rng.choice(["block", "block", "skew", "random"]), hy=hy)
    if len(g.E) > 1 and rng.random() < .5: g.E[0], g.E[1] = g.E[1], g.E[0]; g.hasEW[0], g.hasEW[1] = g.hasEW[1], g.hasEW[0]
    s.graph(g)
    for k in range(rng.choice([1, 1, 2])):
        nt = len(g.E)
        ds = [rng.randrange(-1, nt)] if rng.random() < .7 else rng.sample(range(-1, nt), min(2, nt + 1))
        kw = dict(sf=rng.choice([.1, .2, .5, .5, 1.0]), it=rng.choice([2, 4, 8, 12]), itt=rng.choice([None, 3, 6]), verb=rng.choice([0, 0, 1, 3]))
        if rng.random() < .6: kw["cut"] = rng.choice([.25, .5, .75, 1.0, 1.0, 1.5, 2.0, 3.0])
        if rng.random() < .5: kw["dq"] = rng.randrange(2)
        if rng.random() < .4: kw["push"] = rng.randrange(2)
        if rng.random() < .15: kw["mincon"] = rng.choice([2, 3])
        if rng.random() < .1: kw["pwb"] = 1
        if rng.random() < .2: kw["ghosts"] = 1
        if rng.random() < .15: kw["c"] = rng.choice([1, 2])
        if rng.random() < .3: kw["sides"] = rng.randrange(nt)
        s.balance([(d, rng.choice([1010, 1010, 1050, 1100])) for d in ds], **kw)
    return s.end()
prop("C25", lambda seed, tier: [selection_case("C25", seed, i) for i in range(1000 if tier == "quick" else 10000)], ["balance"])

def part_case(pid, seed, i):
    """the part weight balancer decides how much each process sends to each neighbour"""
    rng = rng_of(seed, pid, i)
    n = rng.choice([2, 2, 3, 3, 3, 4, 4, 5, 6]) if rng.random() < .98 else 1
    s = Script("%s-%d" % (pid, i), n, rng)
    if rng.random() < .15: s.order(0)
    g = mesh_graph(rng, n, hy=rng.random() < .6, small=rng.random() < .25, wts=rng.choice([[1000], [3000, 5000], [4000], [2000, 7000], [500, 6000], [10000, 15000]]), ewts=rng.choice([None, [5000], [2000, 8000], [4000]]))
    if rng.random() < .3:       # most of the weight on one process, so that it has more to send than one step takes
        big = rng.randrange(n)
        for v in g.w:
            if rng.random() < .6: g.own[v] = big
    s.graph(g)
    for k in range(rng.choice([1, 1, 2])):
        nt = len(g.E); dims = list(range(-1, nt))
        ds = [rng.choice([-1, -1] + dims)] if rng.random() < .6 else rng.sample(dims, rng.randrange(1, min(3, len(dims)) + 1))
        kw = dict(sf=rng.choice([.1, .2, .3, .5, .5, 1.0]), it=rng.choice([2, 3, 5, 8, 12]), itt=rng.choice([None, None, 2, 4, 6]), pwb=1, verb=rng.choice([0, 0, 1, 2, 3, 3]))
        if rng.random() < .3: kw["sides"] = rng.randrange(nt)
        if rng.random() < .2: kw["ghosts"] = 1
        if rng.random() < .25: kw["dq"] = rng.randrange(2)
        if rng.random() < .15: kw["cut"] = rng.choice([.5, 1.0, 2.0])
        if rng.random() < .05: kw["mincon"] = 2
        s.balance([(d, rng.choice([1010, 1050, 1100, 1250, 1500, 2000])) for d in ds], **kw)
    return s.end()
prop("C29", lambda seed, tier: [part_case("C29", seed, i) for i in range(700 if tier == "quick" else 7000)], ["balance"])

def timers_case(seed, i):
    rng = rng_of(seed, "C30", i); n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    s = Script("C30-%d" % i, n, rng)
    s.graph(graph_for(rng, n, nt=rng.choice([1, 2])))
    if rng.random() < .5: s.coords()
    s.timers("new")
    four = ["setup", "comm", "build", "total"]; more = ["planning", "a", "Total", "io", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "y1", "y2", "y3", "y4", "y5", "y6"]
    names = (rng.sample(four, 4) if rng.random() < .8 else []) + rng.sample(more, rng.choice([0, 1, 2, 4, 12, 19]))
    if rng.random() < .4: rng.shuffle(names)
    late = [k for k in names if rng.random() < .3]
    for k in names:
        if k not in late: s.timers("add", k)
    for k in range(rng.choice([3, 5, 8, 10])):
        o = rng.choice(["upd", "upd", "mig", "get", "late", "setw"] + ["new"] * (rng.random() < .1))
        if o == "late" and late: s.timers("add", late.pop())
        elif o == "upd":
            x = [k for k in s.tm if k not in four or rng.random() < .2]
            if x: s.timers("upd", rng.choice(x))
        elif o == "mig": s.timedmig()
        elif o == "get" and s.tm: s.timers("get")
        elif o == "setw": s.setw()
        elif o == "new":
            s.timers("new"); late = []
            for k in rng.sample(names, rng.randrange(len(names) + 1)): s.timers("add", k)
    if s.tm: s.timers("get")
    return s.end()
def times_case(seed, i):
    if rng_of(seed, "C30k", i).random() < .3: return balance_case("C30", seed, i, verbs=[-1, 0, 1, 2, 2, 2, 2, 3])
    return timers_case(seed, i)
prop("C30", lambda seed, tier: [times_case(seed, i) for i in range(900 if tier == "quick" else 9000)], ["timers", "mig", "balance"])

def talk_case(seed, i):
    rng = rng_of(seed, "C26", i)
    if rng.random() < .55: 
        s = balance_case("C26", seed, i, verbs=[-1, 0, 1, 1, 2, 2, 2, 3])
        return s
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]); s = Script("C26-%d" % i, n, rng)
    hy = rng.random() < .7
    heavy = rng.random() < .7
    s.graph(mesh_graph(rng, n, hy=hy, small=True, nt=rng.choice([1, 1, 2, 3]), wts=rng.choice([[10000, 20000, 40000], [15000], [60000, 1000, 8500], [30000, 250]]) if heavy else None)); s.stale = False
    for k in range(rng.randrange(1, 3)):
        s.wbal(rng.choice([1010, 1050, 1100, 1300, 1500, 2000]), rng.choice([.1, .3, .5, 1.0]), rng.randrange(len(s.g.E)), rng.choice([100, 10, 0, 1, 2, 3, 4, 5]), rng.choice([-1, 0, 0, 1, 2, 3]))
        if rng.random() < .3: s.mig()
    return s.end()
prop("C26", lambda seed, tier: [talk_case(seed, i) for i in range(1000 if tier == "quick" else 10000)], ["balance", "wbal"])

# ---------------------------------------------------------------- moving weight
def weight_case(seed, i):
    rng = rng_of(seed, "C14", i)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    s = Script("C14-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    heavy = rng.random() < .6
    def graph():
        hy = rng.random() < .7
        return mesh_graph(rng, n, hy=hy, small=True, nt=rng.choice([1, 1, 2]), wts=rng.choice([[10000, 20000, 40000], [15000], [60000, 1000, 8500], [30000, 250]]) if heavy else None, ewts=rng.choice([[20000, 45000], [500, 60000]]) if rng.random() < .2 else None)
    s.graph(graph()); s.stale = False
    for k in range(rng.randrange(1, 5)):
        o = rng.choice(["wmig"] * 4 + ["wbal"] * (5 if heavy else 1) + ["mig", "setw", "resetpart", "wplan", "wplan"])
        if o == "wplan": s.wplan()
        if o == "resetpart": s.simple("resetpart"); s.oo = True
        elif o == "wmig" and not s.stale: s.wmig()
        elif o == "wbal": s.wbal(rng.choice([1010, 1050, 1100, 1300, 2000]), rng.choice([.1, .3, .5, 1.0]), rng.randrange(len(s.g.E)), rng.choice([100, 10, 1, 3]), rng.choice([-1, 0, 1, 3, 3]))
        elif o == "mig": s.mig()
        elif o == "setw" and not heavy: s.setw()
    return s.end()
prop("C14", lambda seed, tier: [weight_case(seed, i) for i in range(1200 if tier == "quick" else 12000)], ["wmig", "wbal"])

# ---------------------------------------------------------------- messages and collectives
COLLS = ["addi", "mini", "maxi", "exi", "addl", "exl", "addd", "mind", "maxd", "addz", "minz", "maxz", "or", "and"]
def comm_post(case, stream):
    for e in stream:
        if e["ev"] == "coll":
            for o in e["out"]:
                if "v" in o: o["v"] = [list(divmod(int(x), 10**6)) for x in o["v"]]
    return stream
def comm_n(rng): return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16]) if rng.random() < .97 else rng.choice([17, 20, 24, 31, 32, 33])
def phase_case(seed, i):
    rng = rng_of(seed, "C09", i); n = comm_n(rng); s = Script("C09-%d" % i, n, rng, init=rng.choice(["engpar", "pcu"]))
    if rng.random() < .35: s.order(0)
    for k in range(rng.randrange(2, 9)):
        o = rng.choice(["phase"] * 8 + ["coll", "barrier", "order"])
        if o == "phase": s.phase(rng.choice("rrlde"), heavy=rng.random() < .2)
        elif o == "coll": s.coll(rng.choice(COLLS))
        elif o == "barrier": s.barrier()
        else: s.order(rng.randrange(2))
    s.phase(rng.choice("rlde"))
    return s.end()
def coll_case(seed, i):
    rng = rng_of(seed, "C10", i); n = comm_n(rng); s = Script("C10-%d" % i, n, rng, init=rng.choice(["engpar", "pcu"]))
    fs = list(COLLS); rng.shuffle(fs)
    for f in fs[:rng.randrange(4, 15)]:
        s.coll(f)
        o = rng.random()
        if o < .25: s.barrier()
        elif o < .4: s.phase(rng.choice("rlde"))
    s.barrier()
    return s.end()
prop("C09", lambda seed, tier: [phase_case(seed, i) for i in range(2000 if tier == "quick" else 20000)], ["phase"], post=comm_post)
prop("C10", lambda seed, tier: [coll_case(seed, i) for i in range(1600 if tier == "quick" else 16000)], ["coll", "barrier"], post=comm_post)

# ---------------------------------------------------------------- communicators
def weave(s, subs, rng, tag):
    """the scripts of disjoint groups, run side by side: subs = [(members in order, Script)]"""
    left = [list(x.c.ops[1:]) for _, x in subs]        # without their init
    while any(left):
        k = rng.choice([i for i in range(len(subs)) if left[i]])
        for kind, toks, inp, _ in left[k][:rng.choice([1, 1, 2, 5])]:
            full = [None] * s.n
            for j, r in enumerate(subs[k][0]): full[r] = toks[j]
            s.c.op(kind, full, inp, [{"vc": "%s#%s%d" % (s.c.id, tag, k), "ranks": list(subs[k][0]), "in": inp}])
            left[k].pop(0)
def sub_script(rng, members, cid):
    m = len(members); x = Script(cid, m, rng)
    x.graph(mesh_graph(rng, m, hy=rng.random() < .7, small=True) if rng.random() < .6 else graph_for(rng, m))
    for k in range(rng.randrange(1, 5)):
        o = rng.choice(["mig", "mig", "repart", "getpart", "balance", "proj", "setew", "valid", "gtag", "imb"])
        if o == "balance":
            if x.g.E: x.balance([(d, 1100) for d in rng.sample(range(-1, len(x.g.E)), rng.choice([1, 1, 2]) if len(x.g.E) else 1)], it=4, sf=.5, verb=-1, talk=0)
            x.unknown = True; break
        elif o == "gtag": x.gtags = []; x.gtag(); x.ghostget()
        else: one(x, rng, o, k)
    if rng.random() < .7: x.simple("destroy")
    return x
def switch_case(seed, i):
    rng = rng_of(seed, "C20", i); n = rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 9])
    s = Script("C20-%d" % i, n, rng, init=rng.choice(["engpar", "pcu", "c", "f", "both", "quiet"]))
    s.info()
    cnt = [0]
    def divide(base):
        cnt[0] += 1; name = "c%d" % cnt[0]; k = rng.randrange(1, 4)
        style = rng.choice(["mod", "block", "any", "rev", "key", "some"])
        ck = []
        for r in range(n):
            col = r % k if style == "mod" else r * k // n if style == "block" else rng.randrange(k) if style in ("any", "key") else 0
            key = -r if style == "rev" else rng.randrange(3) if style == "key" else 0
            ck.append([col, key])
        s.commsplit(name, base, ck); return name
    names = ["world"]
    def activity(part, deep):
        for _ in range(rng.randrange(1, deep)):
            o = rng.choice(["phase", "phase", "coll", "coll", "barrier", "info", "order"])
            if o == "phase": s.phase(rng.choice("rlde"), part)
            elif o == "coll": s.coll(rng.choice(COLLS), part)
            elif o == "barrier": s.barrier(part)
            elif o == "info": s.info(part)
            elif o == "order" and part is None: s.order(rng.randrange(2))
    def appsend():
        name = rng.choice(names); b = s.comm(name)
        s.appsend(name, [[[rng.randrange(len(b[r])), rng.choice([0, 0, 1, 7]), rng.randrange(10**6)] for _ in range(rng.choice([0, 0, 1, 2]))] for r in range(n)])
    for k in range(rng.randrange(1, 4)):
        if rng.random() < .4: activity(None, 4)
        if rng.random() < .75: names.append(divide(rng.choice(names)))
        if rng.random() < .6: appsend()
        to = rng.choice(names + ["self"]) if rng.random() < .9 else "world"
        # some groups may stay where they are, if that leaves whole groups
        s.switch([to] * n, rng.choice([0, 0, 1, 2, 3]))
        gs = s.groups()
        z = rng.random()
        if z < .5:
            for _ in range(rng.randrange(1, 7)): activity(rng.choice(gs), 3)
        elif z < .8:
            subs = [(s.act[g[0]], sub_script(rng, s.act[g[0]], "x")) for g in gs if len(gs) < 5 or rng.random() < .5]
            weave(s, subs, rng, "r%d" % k)
        else: activity(None, 4)
        if rng.random() < .5 and getattr(s, "pend", None): s.apprecv(rng.choice(sorted({p[0] for p in s.pend})))
        if rng.random() < .6: s.switch(["world"] * n, rng.choice([0, 1, 2, 3])); activity(None, 3)
    s.switch(["world"] * n, rng.choice([0, 1, 2, 3])); activity(None, 4)
    for name in sorted({p[0] for p in getattr(s, "pend", [])}): s.apprecv(name)
    s.info()
    if s.fin in ("both", "pcu"):
        if s.fin == "both": s.c.op("fini", "engpar", {"how": "engpar"}); s.info(); s.phase("r")
        s.c.op("fini", "pcu", {"how": "pcu"})
        if rng.random() < .5: s.c.op("init", "both", {"how": "both"}); s.coll("addi"); s.c.op("fini", "engpar", {"how": "engpar"}); s.coll("addi"); s.c.op("fini", "pcu", {"how": "pcu"})
    else:
        s.c.op("fini", s.fin, {"how": s.fin})
        if rng.random() < .5: s.c.op("init", "both", {"how": "both"}); s.coll("addi"); s.c.op("fini", "engpar", {"how": "engpar"}); s.coll("addi"); s.c.op("fini", "pcu", {"how": "pcu"})
    s.c.op("end", "")
    return s.c
prop("C20", lambda seed, tier: [switch_case(seed, i) for i in range(1600 if tier == "quick" else 16000)], ["switch", "apprecv", "phase", "coll", "graph"], post=comm_post)

# ---------------------------------------------------------------- binary edge lists
def edge_list(rng):
    """vertices 0..nv-1, each the end of an edge (the last one must be, for the file to name it)"""
    nv = rng.choice([2, 2, 3, 4, 5, 6, 8, 10, 14, 20]); es = []
    style = rng.choice(["any", "ring", "tree", "sym", "star", "sparse", "any"])
    if style == "ring": es = [(i, (i + 1) % nv) for i in range(nv)] if nv > 2 else [(0, 1), (1, 0)]
    elif style == "tree": es = [(rng.randrange(i), i) if rng.random() < .5 else (i, rng.randrange(i)) for i in range(1, nv)]
    elif style == "star": es = [(0, i) for i in range(1, nv)]
    elif style == "sparse": es = [(nv - 1, rng.randrange(nv - 1))]
    else:
        seen = set()
        for _ in range(rng.randrange(1, 3 * nv)):
            a, b = rng.sample(range(nv), 2)
            if (a, b) not in seen or rng.random() < .3: es.append((a, b)); seen.add((a, b))
        if style == "sym": es += [(b, a) for a, b in es]
        if not any(nv - 1 in e for e in es): es.append((nv - 1, rng.randrange(nv - 1)))
    rng.shuffle(es)
    return nv, es
def bin_case(seed, i):
    rng = rng_of(seed, "C16", i); n = sizes(rng); s = Script("C16-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    for k in range(rng.choice([1, 1, 2])):
        nv, es = edge_list(rng)
        part = None if rng.random() < .45 else [rng.randrange(n) for _ in range(nv)]
        if part and rng.random() < .3: part = [rng.randrange(max(1, n // 2)) for _ in range(nv)]
        s.binload("b%d" % k, nv, es, part)
        for _ in range(rng.choice([0, 0, 1, 2])):
            o = rng.choice(["proj", "mig", "valid", "coords", "setew", "repart", "getpart", "gtag"] if part is not None else ["proj", "valid", "setew", "resetown"])
            if o == "gtag": s.gtags = []; s.gtag(); s.ghostget()
            else: one(s, rng, o, k)
    return s.end()
prop("C16", lambda seed, tier: [bin_case(seed, i) for i in range(1600 if tier == "quick" else 16000)], ["binload"])

# ---------------------------------------------------------------- splitting
def intweights(g):
    for v in g.w: g.w[v] = max(1000, g.w[v] // 1000 * 1000)
    g.E = [[(e, max(1000, w // 1000 * 1000), p) for e, w, p in es] for es in g.E]
def symmetric(g):
    """every directed edge in both directions"""
    if g.hy: return
    for t in range(len(g.E)):
        es = list(g.E[t]); k = max([e[0] for e in es], default=0) + 1
        for e, w, p in list(es):
            if sum(1 for x in es if x[2] == p[::-1]) < sum(1 for x in es if x[2] == p): es.append((k, w, p[::-1])); k += 1
        g.E[t] = es
def split_case(seed, i, pid="C15"):
    rng = rng_of(seed, pid, i); n = rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 7, 8]); s = Script("%s-%d" % (pid, i), n, rng, init="engpar" if pid == "C15" else rng.choice(["c", "f"]))
    vc = s.c.id + "#s"; cnt = 0; gen = {}
    def emit(kind, members, toks, inp):
        full = [None] * n
        for j, r in enumerate(members): full[r] = toks[j] if isinstance(toks, list) else toks
        s.c.op(kind, full, inp, [{"vc": vc, "ranks": list(members), "in": inp}])
    def flush(x, members, frm):
        for kind, toks, inp, _ in x.c.ops[frm:]: emit(kind, members, toks, inp)
        return len(x.c.ops)
    def comm_of(members, label):
        """a communicator with exactly these members in this order, the others by themselves"""
        name = "%s%d" % (label, cnt)
        s.commsplit(name, "world", [[0, members.index(r)] if r in members else [1 + r, 0] for r in range(n)])
        return name
    # sizes: small within large within the program
    chain = [n if rng.random() < .8 else rng.randrange(1, n + 1)]
    while len(chain) < 3 and (len(chain) == 1 or rng.random() < .25): chain.insert(0, rng.randrange(1, chain[0] + 1))
    allr = list(range(n)); large = sorted(rng.sample(allr, chain[-1])) if rng.random() < .7 else rng.sample(allr, chain[-1])
    sets = [large]
    for m in chain[-2::-1]:
        sub = rng.sample(sets[0], m); sets.insert(0, [r for r in sets[0] if r in sub] if rng.random() < .6 else sub)
    small = sets[0]
    c = rng.choice([1, 1, 2]) if rng.random() < (.3 if pid == "C15" else 1) else 0
    cs = comm_of(small, "s"); s.switch([cs if r in small else None for r in range(n)], rng.choice([0, 1, 2, 3]))
    x = Script(s.c.id, len(small), rng)
    metis = rng.random() < (.7 if pid == "C15" else 1)
    g = mesh_graph(rng, len(small), hy=rng.random() < .6, small=rng.random() < .6, wts=rng.choice([[1000], [1000, 2000, 3000]]), ewts=rng.choice([[1000], [1000, 2000, 5000]])) if rng.random() < .6 else \
        graph_for(rng, len(small), nt=rng.choice([1, 1, 2, 3]), big=False)
    if max(g.w, default=0) >= 2**31 or any(e[0] >= 2**31 for E in g.E for e in E): g = graph_for(rng, len(small), nt=rng.choice([1, 2]), maxid=1000)
    symmetric(g)
    if metis: intweights(g)
    if rng.random() < .15: x.order(0)
    x.graph(g, form="c" if c else None, kind="cgraph" if c else "graph"); done = 1
    for k in range(rng.choice([0, 0, 1, 2])):
        o = rng.choice(["mig", "mig", "repart", "coords", "setorig", "resetown", "getpart", "valid"]); one(x, rng, o, k, c)
    done = flush(x, small, done)
    for lv in range(1, len(sets)):
        cnt += 1; large = sets[lv]; n2 = len(large); mp = [large.index(r) for r in small]; ns = len(small)
        lname = comm_of(large, "l")
        method = rng.choice(["GLOBAL_PARMETIS", "LOCAL_PARMETIS", "LOCAL_PARMETIS"]) if metis else "ZOLTAN_PHG"
        t = rng.randrange(len(x.g.E)); tol = rng.choice([1050, 1010, 1250])
        f = max(1, n2 // ns) if rng.random() < .8 else rng.randrange(1, max(1, n2 // ns) + 1)
        free = [q for q in range(n2) if q not in mp]; rng.shuffle(free)
        others = [[mp[j]] + [free.pop() for _ in range(f - 1)] for j in range(ns)]
        for o in others:
            if rng.random() < .5: rng.shuffle(o)
        parts = f if method == "LOCAL_PARMETIS" else n2
        style = rng.choice(["any", "any", "same", "one", "cycle"]); d0 = rng.randrange(parts)
        ans = {v: rng.randrange(parts) if style == "any" else d0 if style == "one" else k % parts if style == "cycle" else
               (others[x.g.own[v]].index(mp[x.g.own[v]]) if method == "LOCAL_PARMETIS" else mp[x.g.own[v]]) for k, v in enumerate(x.g.w)}
        atoks = "%d " % len(ans) + " ".join("%d %d" % y for y in ans.items())
        toks = []
        for j, r in enumerate(large):
            orig = r in small
            o = others[mp.index(j)] if orig and method == "LOCAL_PARMETIS" else []
            toks.append("%s %s %s %s %d %d %s %d %d %s %s" % ("ncf"[c] if metis else "n", method, cs, lname, 1 if orig else 0, f, repr(tol / 1000.0), t, len(o), " ".join(map(str, o)), atoks))
        inp = {"method": method, "np": f if method == "LOCAL_PARMETIS" else n2, "tol": tol, "t": t + 1, "map": mp, "ans": [[str(v), p] for v, p in ans.items()], "others": others, "c": c if metis else 0}
        emit("split", large, toks, inp)
        own = {v: others[x.g.own[v]][ans[v]] if method == "LOCAL_PARMETIS" else ans[v] for v in x.g.w}
        y = Script(s.c.id, n2, rng); y.g = x.g; y.g.n = n2; y.g.own = own; y.oo = True; done = 1
        for k in range(rng.choice([0, 1, 2, 3])):
            o = rng.choice(["mig", "mig", "repart", "coords", "getpart", "valid", "proj", "resetown"]); one(y, rng, o, k, c)
        if rng.random() < .5: y.getpart(c)
        flush(y, large, done); x, small, cs = y, large, lname
        emit("info", large, "", {})
        for r in large: s.act[r] = list(large)
    s.switch(["world"] * n, rng.choice([0, 1, 2, 3]))
    return s.end()
prop("C15", lambda seed, tier: [split_case(seed, i) for i in range(1300 if tier == "quick" else 13000)], ["split"], post=comm_post)

# ---------------------------------------------------------------- pictures
def vtk_parse(text):
    """a piece or the list of pieces, as numbers; ok = 0 when it is not a well formed file of that kind"""
    import xml.etree.ElementTree as ET
    d = {"ok": 0, "np": -1, "nc": -1, "pts": [], "conn": [], "off": [], "ty": [], "part": [], "kind": [], "tag": [], "names": [], "src": []}
    try:
        R = ET.fromstring(text); gr = list(R); par = R.get("type") == "PUnstructuredGrid"
        if R.tag != "VTKFile" or len(gr) != 1 or gr[0].tag != R.get("type"): return d
        P = gr[0]
        if not par:
            if R.get("type") != "UnstructuredGrid" or [x.tag for x in P] != ["Piece"]: return d
            P = P[0]; d["np"], d["nc"] = int(P.get("NumberOfPoints")), int(P.get("NumberOfCells"))
        w = "P" if par else ""; arrays = {}
        for sec in P:
            if sec.tag == "Piece": d["src"].append(sec.get("Source")); continue
            if sec.tag not in (w + "Points", w + "PointData", "Cells"): return d
            for a in sec:
                if a.tag != w + "DataArray" or a.get("format") != "ascii": return d
                k = sec.tag + "." + a.get("Name"); d["names"].append(k[1:] if par else k)
                if k in arrays or int(a.get("NumberOfComponents", 1)) != (3 if sec.tag == w + "Points" else 1): return d
                arrays[k] = (a.text or "").split()
                if a.get("type") != {"Points": "Float64", "types": "UInt8"}.get(a.get("Name"), "Int32"): return d
        if not par:
            x = [num(v, 1000) for v in arrays["Points.Points"]]; c = [int(v) for v in arrays["Cells.connectivity"]]
            if len(x) % 3 or len(c) % 2: return d
            d["pts"] = [x[i:i + 3] for i in range(0, len(x), 3)]; d["conn"] = [c[i:i + 2] for i in range(0, len(c), 2)]
            d["off"] = [int(v) for v in arrays["Cells.offsets"]]; d["ty"] = [int(v) for v in arrays["Cells.types"]]
            d["part"] = [int(v) for v in arrays["PointData.Part"]]; d["kind"] = [int(v) for v in arrays.get("PointData.VorE", [])]; d["tag"] = arrays.get("PointData.Tag", [])
        d["names"].sort(); d["ok"] = 1
    except (ET.ParseError, ValueError, TypeError, KeyError): pass
    return d
def vtk_post(case, stream):
    for e in stream:
        if e["ev"] != "vtk": continue
        for r, o in enumerate(e["out"]):
            if "f" in o: o["d"] = vtk_parse(o.pop("f")); pf = o.pop("pf"); o["pd"] = vtk_parse(pf) if r == 0 else {}
    return stream
def vtk_case(seed, i):
    rng = rng_of(seed, "C24", i); n = sizes(rng); s = Script("C24-%d" % i, n, rng)
    if rng.random() < .15: s.order(0)
    def graph():
        s.graph(mesh_graph(rng, n, hy=rng.random() < .6, small=True) if rng.random() < .4 else graph_for(rng, n, nt=rng.choice([1, 1, 1, 2, 2, 3]))); s.coords(); s.droptags()
    graph()
    for k in range(rng.randrange(1, 5)):
        o = rng.choice(["mig", "mig", "repart", "rm", "add", "coords", "graph", "sl", "none", "none"])
        if o == "graph": graph()
        elif o == "add" and len(s.g.E) < 4: s.addedges(); s.droptags()
        elif o == "rm" and len(s.g.E) > 1: s.rmedges(rng.randrange(len(s.g.E))); s.droptags()
        elif o == "sl":
            if max(s.g.w, default=0) < 2**31 and all(e[0] < 2**31 for E in s.g.E for e in E): one(s, rng, o, k); s.droptags()
        elif o in ("mig", "repart", "coords"): one(s, rng, o, k); s.droptags()
        z = rng.choice([-1, -1, 0, 0, -2, -2, -3]); name = "v%d" % k + ("x" * 235 if rng.random() < .05 else "")
        if z in (-1, 0): s.vtk(name, s.settag_on(z), z)
        elif z == -3: s.vtk(name, s.settag_on(rng.choice([-1, 0])), -2)     # a tag, but no type: no tag is shown
        else: s.vtk(name)
    return s.end()
prop("C24", lambda seed, tier: [vtk_case(seed, i) for i in range(1500 if tier == "quick" else 15000)], ["vtk", "coords"], post=vtk_post)

# ---------------------------------------------------------------- the same again: other schedules, other interfaces
def keyed(ops, agree, tag=""):
    """the operations with a name for what they show, the same in every repetition"""
    return [(k, t, i if k == "barrier" else dict(i, key="%s%d" % (tag, j), agree=agree), g) for j, (k, t, i, g) in enumerate(ops)]
def any_ops(s, rng, steps, comm=True):
    """a program of any operations of the library; begins with the construction of its graph"""
    n = s.n
    def graph():
        z = rng.random()
        if z < .55: s.graph(mesh_graph(rng, n, hy=rng.random() < .7, small=rng.random() < .7))
        elif z < .9: s.graph(graph_for(rng, n, nt=rng.choice([1, 1, 2, 2, 3])))
        else:
            nv, es = edge_list(rng); s.binload("b%d" % len(s.c.ops), nv, es, [rng.randrange(n) for _ in range(nv)])
        s.gtags = []; s.droptags(); s.made = set(); s.stale = False
    graph()
    for k in range(rng.randrange(*steps)):
        o = rng.choice(["mig"] * 4 + ["repart", "getpart", "getpart", "coords", "setw", "setew", "rm", "add", "tags", "gtag", "gtag", "all", "adj", "queue", "queue", "imb", "eval", "sl", "wmig", "wbal", "balance", "balance", "balance", "swap", "graph", "resetown", "resetpart", "stats"] + (["phase", "coll"] if comm else []))
        if o in ("mig", "repart", "swap", "add", "rm", "balance"): s.droptags(); s.gtags = []; s.made = set()
        if o == "graph": graph()
        elif o == "tags": s.tagcmds(6)
        elif o == "all": s.settag_all(); s.gtag(); s.ghostget()
        elif o == "gtag": s.gtag(); s.ghostget()
        elif o == "adj" and s.g.E: s.adj(rng.choice(["vev", "eve"]), rng.randrange(len(s.g.E)), rng.randrange(2))
        elif o == "queue" and s.g.E: s.queue(1 if rng.random() < .75 else 0, rng.randrange(2))
        elif o == "imb": s.imb(rng.randrange(2))
        elif o == "stats": s.simple("stats")
        elif o == "eval": s.evaluate()
        elif o == "phase": s.phase(rng.choice("rlde"))
        elif o == "coll": s.coll(rng.choice(COLLS))
        elif o == "sl":
            if max(s.g.w, default=0) < 2**31 and all(e[0] < 2**31 for E in s.g.E for e in E): one(s, rng, o, k); s.droptags(); s.gtags = []; s.made = set()
        elif o == "wmig":
            if not getattr(s, "stale", False) and s.g.E: s.wmig()
        elif o == "wbal":
            if s.g.E: s.wbal(rng.choice([1010, 1100, 1300]), rng.choice([.1, .5, 1.0]), rng.randrange(len(s.g.E)), rng.choice([10, 1, 3]), 0)
        elif o == "balance":
            if not s.g.E: continue
            dims = list(range(-1, len(s.g.E)))
            s.balance([(d, rng.choice([1010, 1050, 1100, 1250])) for d in rng.sample(dims, rng.randrange(1, len(dims) + 1))], sf=rng.choice([.1, .3, .5, 1.0]), it=rng.choice([2, 4, 8]), itt=rng.choice([None, 3]),
                      sides=rng.randrange(len(s.g.E)), ghosts=rng.choice([0, 0, 1]), dq=rng.choice([None, 0, 1]), push=rng.choice([None, 0, 1]), pwb=rng.choice([0, 0, 0, 1]))
            if rng.random() < .6: one(s, rng, "getpart", k)
            if rng.random() < .5: graph()
        else: one(s, rng, o, k)
def schedule_case(seed, i):
    rng = rng_of(seed, "C22", i); n = rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 9])
    s = Script("C22-%d" % i, n, rng, mode=0)
    x = Script("x", n, rng)
    any_ops(x, rng, (2, 7))
    ops = keyed(x.c.ops[1:], "C22")
    for rep in range(3):
        if rep: s.sched(2 if rep == 1 else rng.choice([1, 2]))
        s.c.ops += ops
    return s.end()
prop("C22", lambda seed, tier: [schedule_case(seed, i) for i in range(900 if tier == "quick" else 9000)], ["graph", "mig", "balance", "sched"],
     post=lambda c, st: metrics_post(c, comm_post(c, st)))

LOGGED_QUIETLY = ("barrier", "binfile", "order", "sched", "skip", "init", "fini", "end", "log", "logread")
def logged(ops, rng, n, has):
    """the operations with the log opened (and sometimes closed again) and read after each of them"""
    r, on, oo = [], False, False
    def put(k, toks, i): r.append((k, [toks] * n, i, None))
    for j, (k, toks, i, g) in enumerate(ops):
        if (j == 0 or rng.random() < .3) and not on: put("log", "1", {"on": 1}); on = True
        elif on and rng.random() < .05: put("log", "0", {"on": 0}); on = False
        r.append((k, toks, i, g))
        w = toks[0].split(" "); form, gone = "", 0
        if k in ("graph", "cgraph"):
            form = w[1 if k == "cgraph" else 0]; gone = int(has and not form.endswith("+")); form = form.rstrip("+"); first = 0; has, oo = True, False
        elif k == "load": gone = int(has and w[2] == "1"); has, oo = True, False
        elif k == "binload": gone = int(has); has, oo = True, False
        elif k == "empty" or k == "destroy": gone = int(has); has, oo = k == "empty", False
        first = int(k == "mig" and not oo)
        if k in ("mig", "repart", "setorig", "setorigv", "resetown", "resetpart") or k == "balance" and n > 1: oo = True
        if k not in LOGGED_QUIETLY: put("logread", "", {"k": k, "i": i, "form": form, "gone": gone, "first": first, "path": w[0]})
    if on: put("log", "0", {"on": 0}); put("logread", "", {"k": "none", "i": {"x": 0}, "form": "", "gone": 0, "first": 0, "path": ""})
    return r
def diagnostic_case(seed, i):
    rng = rng_of(seed, "C27", i); n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    s = Script("C27-%d" % i, n, rng)
    if i % 3 == 0:      # the validity check
        hy = rng.random() < .8
        g = mesh_graph(rng, n, hy=hy, small=True) if rng.random() < .6 else rand_graph(rng, n, hy=hy)
        s.graph(g)
        for k in range(rng.randrange(1, 6)):
            if rng.random() < .3: one(s, rng, rng.choice(["mig", "repart", "rm", "add", "setew", "bal", "sl"]), k)
            if rng.random() < .3: s.msg()
            nt = len(s.g.E); what = rng.choice(["none", "verts", "self", "self", "far", "far"] + ((["edges", "pins", "lpins"] + ["pin", "pin"] * hy) if nt else []))
            s.simple("corrupt", "%s %d %d" % (what, rng.randrange(max(nt, 1)), rng.randrange(1000)), {"what": what})
        return s.end()
    x = Script("x", n, rng); any_ops(x, rng, (2, 7), False)
    ops = keyed(x.c.ops[1:], "C27")
    if rng.random() < .5: s.c.ops += ops; s.c.ops += logged(ops, rng, n, True)
    else: s.c.ops += logged(ops, rng, n, False); s.c.ops += ops
    return s.end()
prop("C27", lambda seed, tier: [diagnostic_case(seed, i) for i in range(1200 if tier == "quick" else 12000)], ["log", "logread", "corrupt", "graph", "mig", "balance", "wbal"],
     post=lambda c, st: metrics_post(c, comm_post(c, st)))

def files_case(seed, i):
    rng = rng_of(seed, "C28", i); n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    s = Script("C28-%d" % i, n, rng, init=rng.choice(["engpar", "engpar", "pcu"])); g = False
    for k in range(rng.randrange(1, 7)):
        o = rng.choice(["pcuio"] * 4 + ["debug"] * 3 + ["phase", "coll", "graph"])
        if o == "pcuio": s.pcuio("p%d" % k)
        elif o == "debug": s.debug()
        elif o == "phase": s.phase(rng.choice("rlde"))
        elif o == "coll": s.coll(rng.choice(COLLS))
        elif not g: s.graph(mesh_graph(rng, n, small=True)); s.save("f%d" % k); g = True
        else: one(s, rng, "mig", k)
    return s.end()
prop("C28", lambda seed, tier: [files_case(seed, i) for i in range(1600 if tier == "quick" else 16000)], ["pcuio", "debug"], post=comm_post)

def through(ops, c):
    """the same operations through the C (1) or Fortran (2) interface"""
    r = []
    for k, toks, inp, g in ops:
        rest = [t.split(" ", 1)[1] if " " in t else "" for t in toks]
        if k == "graph": k, toks = "cgraph", ["%d %s %s" % (c, "c+" if t.split(" ", 1)[0].endswith("+") else "c", x) for t, x in zip(toks, rest)]
        elif k == "getpart": toks = ["%d -1" % c for _ in toks]
        elif k in ("valid", "eval", "save", "load", "balance", "destroy"): toks = [("%d %s" % (c, x)).strip() for x in rest]
        else: r.append((k, toks, inp, g)); continue
        r.append((k, toks, dict(inp, c=c), g))
    return r
def interface_case(seed, i):
    rng = rng_of(seed, "C18", i); z = i % 5
    if z == 0: return split_case(seed, i, "C18")
    if z == 1: return history("C18", seed, i, {"sl": 3, "mig": 2, "coords": 1, "getpart": 3, "valid": 2, "setew": .5, "rm": .5, "resetown": .5, "repart": .5}, (2, 7), viaC=1, io=True, init=rng.choice(["c", "f"]))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    s = Script("C18-%d" % i, n, rng, init=rng.choice(["c", "f"])); x = Script("x", n, rng)
    def graph():
        g = mesh_graph(rng, n, hy=rng.random() < .7, small=rng.random() < .5) if rng.random() < .7 else graph_for(rng, n, nt=rng.choice([1, 1, 2, 3]), maxid=1000)
        g.hasW = True; g.hasEW = [True] * len(g.E); x.graph(g, form=rng.choice(["vec", "arr"]))
    graph()
    for k in range(rng.randrange(1, 6)):
        o = rng.choice(["mig", "mig", "repart", "getpart", "coords", "setw", "setew", "valid", "eval", "eval", "sl"] + ["balance"] * 6)
        if o == "balance":
            dims = list(range(-1, len(x.g.E)))
            x.balance([(d, rng.choice([1010, 1050, 1100, 1250, 1500])) for d in rng.sample(dims, rng.randrange(1, len(dims) + 1))], sf=rng.choice([.1, .3, .5, 1.0]), it=rng.choice([2, 4, 8]),
                      ghosts=rng.choice([0, 0, 1]), toggle=rng.choice([0, 0, 1]), cut=rng.choice([None, None, 0.0, .5, 1.0, 1.1, 2.0]), verb=rng.choice([0, 1, 2]))
            if x.oo and rng.random() < .6: x.getpart()
            if rng.random() < .5: x.simple("eval", "0", {"c": 0})
            if rng.random() < .5: x.simple("destroy", "0", {"c": 0}); graph()
            elif rng.random() < .4: graph()
        elif o == "eval": x.simple("eval", "0", {"c": 0})
        else: one(x, rng, o, k)
    ops = x.c.ops[1:]
    s.c.ops += keyed(ops, "C18"); s.c.ops += keyed(through(ops, 1), "C18"); s.c.ops += keyed(through(ops, 2), "C18")
    return s.end()
prop("C18", lambda seed, tier: [interface_case(seed, i) for i in range(1100 if tier == "quick" else 11000)], ["cgraph", "balance", "split", "getpart", "save", "load"],
     post=lambda c, st: metrics_post(c, comm_post(c, st)))

# ---------------------------------------------------------------- the models of the algorithms
def model(m, cfg, pids, about, tiers=("quick", "thorough"), **kw):
    for p in pids: PROPS[p]["mc"].append(dict(module=m + ".tla", cfg=cfg + ".cfg", tiers=tiers, about=about, **kw))
T = ("thorough",)
MIG = "migration process by process, messages in any order, refines NGraph!Migrate"
model("MigProto", "MigProto2", ["C01", "C02", "C03"], MIG)
model("MigProto", "MigProto2", ["C06", "C22"], MIG, T)
model("MigProto", "MigProto3", ["C01", "C02", "C03", "C22"], MIG, T, workers="4", heap="5g")
PH = "phases with asynchronous messages and barriers: each message once, in its phase; every process leaves"
model("PCUPhase", "PCUPhase22L", ["C09"], PH); model("PCUPhase", "PCUPhase24", ["C09"], PH)
for c in ("23", "31", "32"): model("PCUPhase", "PCUPhase" + c, ["C09"], PH, T, workers="3", heap="5g")
model("PCUPhase", "PCUPhase24", ["C20", "C22"], PH, T)
CO = "reduce, broadcast and prefix sums along trees, any number of processes, any message order: exact, and they end"
for c in ("1", "2", "3", "5"): model("PCUColl", "PCUColl" + c, ["C10"], CO)
for c in ("6", "7s", "8", "8s", "9"): model("PCUColl", "PCUColl" + c, ["C10"], CO, T, workers="3", heap="5g")
model("PCUColl", "PCUColl6", ["C20"], CO, T)
TR = "asking, granting and cutting plans: no limit of a completed target is passed"
model("Trim", "Trim", ["C12"], TR); model("Trim", "Trim3", ["C12"], TR, T)

PP = "every plan of weight between the processes and every way to carry it out: conserved, no more than a piece over the plan, ends at the planned loads"
model("PartPlan", "PartPlan", ["C29"], PP); model("PartPlan", "PartPlanA", ["C29"], PP, T); model("PartPlan", "PartPlan4", ["C29"], PP, T)

SY = "every operation from a fixed graph in every order: shares, edges, ghosts, counts, maps and cuts as the properties say"
for h in "HD": model("System", "System" + h, ["C01", "C02", "C03", "C04", "C06", "C23"], SY); model("System", "System" + h + "L", ["C01", "C02", "C03", "C04", "C06", "C07", "C23"], SY, T, workers="3", heap="5g")

# ---------------------------------------------------------------- behaviours of the specification, replayed
GENERATED = []          # what TLC wrote, for the evidence
def behaviours(module="Gen", **k):
    import run, re, json, os, time
    cfg = os.path.join(run.scratch(), "gen%d.cfg" % len(GENERATED)); t = time.time()
    val = lambda x: ("TRUE" if x else "FALSE") if isinstance(x, bool) else "{%s}" % ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in sorted(x)) if isinstance(x, (set, list)) else str(x)
    with open(cfg, "w") as f: f.write("SPECIFICATION Spec\nCONSTANTS %s\nINVARIANT Written\nCHECK_DEADLOCK FALSE\n" % " ".join("%s = %s" % (a, val(b)) for a, b in k.items()))
    rc, out = run.run_tlc(module + ".tla", cfg, heap="3g", workers="1", timeout=600)
    r = sorted(json.loads(x)[5:] for x in out.splitlines() if x.startswith('"CASE '))
    if "No error has been found" not in out or not r: raise run.Infra("the behaviours of %s %s were not generated: %s" % (module, k, out[-1500:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)[-1]
    GENERATED.append({"model": "%s %s" % (module, k), "generated": int(m[0]), "distinct": int(m[1]), "seconds": round(time.time() - t, 1), "about": "%d behaviours written and replayed into the code" % len(r)})
    return [json.loads(x) for x in r]
def small_graph(s, j):
    g = world.Graph(j["n"], j["hy"])
    # other names than 1, 2, 3
    name = s.rng.choice([lambda v: v - 1, lambda v: 3 - v if v <= 3 else v, lambda v: 5 * v + 2, lambda v: (1 << 33) + v]) if not getattr(s, "short", 0) else s.rng.choice([lambda v: v - 1, lambda v: 7 * v])
    s.name = name
    for v in range(1, j["nv"] + 1): g.w[name(v)] = 1000 * v; g.own[name(v)] = j["own"][v - 1]
    for t in j["E"]: g.E.append([(e["id"], e["w"], [name(p) for p in e["p"]]) for e in t]); g.hasEW.append(True)
    return g
def small_plan(s, plan, i):
    """plan: destination of vertex 1, 2, ...; a vertex that stays is listed every other time"""
    p = [[] for _ in range(s.n)]
    for v, d in enumerate(plan, 1):
        o = s.g.own[s.name(v)]
        if d != o or (v + i) % 2: p[o].append((s.name(v), d))
    s.mig(p)
def replayed(pid, tier, seed):
    r = []
    for a, (tiers, k, then) in enumerate(PROPS[pid].get("small", ())):
        if tier not in tiers: continue
        for i, j in enumerate(behaviours(**k)):
            s = Script("%s-g%d-%d" % (pid, a, i), getattr(then, "procs", j["n"]), rng_of(seed, pid, "g%d-%d" % (a, i)))
            then(s, j, i); r.append(s.end())
    return r
def small(pids, then, tiers=("quick", "thorough"), **k):
    for p in pids: PROPS[p].setdefault("small", []).append((tiers, k, then))
def s_mig(s, j, i):
    s.graph(small_graph(s, j))
    for p in j["plans"]: small_plan(s, p, i)
    if i % 3 == 0: s.proj()
def s_part(s, j, i):
    s.graph(small_graph(s, j))
    for p in j["plans"]: small_plan(s, p, i); s.getpart()
def s_make(s, j, i):
    s.graph(small_graph(s, j)); s.proj(); s.valid()
def s_save(s, j, i):
    s.short = 1; s.graph(small_graph(s, j)); s.save("f"); s.load("f", i % 2); s.save("g")
def s_rm(s, j, i):
    s.graph(small_graph(s, j))
    if i % 2: s.rmedges(i // 2 % len(s.g.E)); s.proj()
    else: s.setew(i // 2 % len(s.g.E))
    if i % 3 == 0: s.repart()
def s_adj(s, j, i):
    s.graph(small_graph(s, j)); s.adj(["vev", "eve"][i % 2], 0, i // 2 % 2)
    if i % 5 == 0: s.adj(["eve", "vev"][i % 2], 0, 1)
    s.reada()
small(["C01", "C02", "C03"], s_mig, NP=2, NVs={1, 2, 3}, NT=1, ME=2, HY=True, Depth=1)
small(["C01", "C02", "C03"], s_mig, NP=2, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=1)
small(["C01", "C02", "C03"], s_mig, T, NP=3, NVs={3}, NT=1, ME=2, HY=True, Depth=1)
small(["C01", "C02", "C03"], s_mig, T, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=1)
small(["C04"], s_part, NP=2, NVs={1, 2}, NT=1, ME=1, HY=True, Depth=3)
small(["C04"], s_part, NP=3, NVs={2}, NT=1, ME=1, HY=False, Depth=2)
small(["C04"], s_part, T, NP=3, NVs={2}, NT=1, ME=1, HY=True, Depth=3)
small(["C05", "C06"], s_make, NP=3, NVs={0, 1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C05", "C06"], s_make, NP=2, NVs={1, 2, 3}, NT=2, ME=2, HY=True, Depth=0)
small(["C05", "C06"], s_make, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C05", "C06"], s_make, T, NP=3, NVs={3}, NT=1, ME=3, HY=True, Depth=0)
small(["C07"], s_save, NP=2, NVs={0, 1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C07"], s_save, NP=3, NVs={1, 2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C07"], s_save, T, NP=3, NVs={1, 2, 3}, NT=2, ME=2, HY=True, Depth=0)
small(["C23"], s_rm, NP=2, NVs={2, 3}, NT=2, ME=2, HY=True, Depth=0)
small(["C23"], s_rm, NP=2, NVs={2, 3}, NT=2, ME=2, HY=False, Depth=0)
small(["C21"], s_adj, NP=2, NVs={1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C21"], s_adj, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C21"], s_adj, T, NP=2, NVs={3}, NT=1, ME=3, HY=True, Depth=0)
def s_hist(s, j, i):
    """a history of operations (System.tla)"""
    import copy
    s.short = 1; s.graph(small_graph(s, j)); kept = None
    for x in j["plans"]:
        o = x["k"]
        if o == "mig": small_plan(s, x["plan"], i)
        elif o == "setw": s.setw()
        elif o == "setew": s.setew(x["t"] - 1)
        elif o == "rm": s.rmedges(x["t"] - 1)
        elif o == "coords": s.coords()
        elif o == "add": s.addedges()
        elif o == "save": s.save("f"); kept = copy.deepcopy(s.g)
        elif o == "load": s.load("f", i % 2); s.g = copy.deepcopy(kept)
        elif o == "getpart": s.getpart()
        else: s.simple(o); s.oo = True
    if i % 2: s.proj()
ALLOPS = {"mig", "setw", "setew", "coords", "rm", "add", "setorig", "resetown", "save", "load", "getpart"}
for _hy in (True, False):
    small(["C23", "C04"], s_hist, ("quick",), module="System", NP=2, HY=_hy, Depth=2, Ops=ALLOPS)
    small(["C02", "C03", "C04", "C07", "C23"], s_hist, T, module="System", NP=2, HY=_hy, Depth=3, Ops=ALLOPS)
    small(["C07"], s_hist, ("quick",), module="System", NP=2, HY=_hy, Depth=4, Ops={"save", "load", "rm", "add", "setew"})
    small(["C01", "C06"], s_hist, T, module="System", NP=3, HY=_hy, Depth=3, Ops={"mig", "rm", "add", "save", "load"})
def s_eval(s, j, i):
    s.graph(small_graph(s, j)); s.evaluate(); s.imb(i % 2)
def s_queue(s, j, i):
    s.graph(small_graph(s, j)); s.queue(1, i % 2); s.queue(0, 0)
def s_bal(s, j, i):
    if not any(j["E"]): j["E"][0] = [{"id": 1, "w": 1000, "p": [1, 2]}]
    s.graph(small_graph(s, j)); dims = list(range(-1, len(s.g.E))); s.rng.shuffle(dims)
    s.balance([(d, 1050) for d in dims[:1 + i % 2]], sf=[.5, 1.0, .1][i % 3], it=3, itt=2)
def s_wbal(s, j, i):
    for e in j["E"][0]: e["w"] = 1000
    s.graph(small_graph(s, j)); s.stale = False; s.wmig(); s.wbal([1050, 1300][i % 2], [.5, 1.0, .1][i % 3], 0, 10, 0)
def s_bin(s, j, i):
    es = [(e["p"][0] - 1, e["p"][1] - 1) for e in j["E"][0]]
    if not any(j["nv"] - 1 in e for e in es): es.append((0, j["nv"] - 1))
    s.binload("b", j["nv"], es, None if i % 2 else j["own"]); s.proj()
def s_phases(s, j, i):
    if i % 3 == 0: s.order(0)
    for p, x in enumerate(j["sends"]): s.phase_of(x, "rlde"[(i + p) % 4])
def s_coll(s, j, i):
    fs = [f for f in COLLS if f[-1] != "z"]
    for f in [fs[(i + k * 5) % len(fs)] for k in range(4)]: s.coll_of(f, [abs(v) if f in ("or", "and") else v for v in j["val"]])
    s.coll_of("addz", [abs(v) for v in j["val"]])
def s_split(s, j, i):
    s.commsplit("c", "world", j["ck"]); s.switch(["c"] * s.n, i % 4); s.info()
    for g in s.groups():
        s.phase_of([range(len(s.act[r])) for r in range(s.n)], "rlde"[i % 4], g); s.coll(COLLS[(i + len(g)) % len(COLLS)], g)
    s.coll("exi"); s.barrier(); s.switch(["world"] * s.n, i // 4 % 4); s.phase_of([[(r + 1) % s.n] for r in range(s.n)])
def s_tag(s, j, i):
    s.graph(small_graph(s, j))
    if i % 2: s.settag_all()
    s.gtag()
    for t in range(len(s.g.E)): s.settag_on(t, i % 2 * 2)
    s.ghostget(); s.tagcmds(3); s.gtag(); s.ghostget()
def s_vtk(s, j, i):
    s.graph(small_graph(s, j)); s.coords(); t = i % 3 - 2
    if t > -2: s.vtk("v", s.settag_on(t, 0), t)
    else: s.vtk("v")
def s_select(s, j, i):
    """the choice of vertices under limits on the cut, the degree, the order, the neighbours"""
    if not any(j["E"]): j["E"][0] = [{"id": 1, "w": 1000, "p": [1, 2]}]
    s.graph(small_graph(s, j)); s.balance([(-1, 1010)], sf=[.5, 1.0][i % 2], it=2, cut=[None, .5, 1.0, 2.0][i // 2 % 4], mincon=[None, None, 2][i % 3], dq=i // 3 % 2, verb=i % 4)
def s_pwb(s, j, i):
    if not any(j["E"]): j["E"][0] = [{"id": 1, "w": 1000, "p": [1, 2]}]
    s.graph(small_graph(s, j)); dims = list(range(-1, len(s.g.E))); s.rng.shuffle(dims)
    s.balance([(d, 1050) for d in dims[:1 + i // 2 % 2]], sf=[.5, 1.0, .1][i % 3], it=3, itt=2, pwb=1, verb=i % 4)
def s_corrupt(s, j, i):
    """what the validity check says of every small graph, as it is and with something wrong in it"""
    s.graph(small_graph(s, j)); nt = len(s.g.E); what = ["none", "verts", "self", "far", "edges", "pins", "lpins"] + ["pin"] * j["hy"]
    for k in (0, 1): s.simple("corrupt", "%s %d %d" % (what[(i + 3 * k) % len(what)], i % nt, i), {"what": what[(i + 3 * k) % len(what)]})
def s_timed(s, j, i):
    s.graph(small_graph(s, j)); s.timers("new")
    for k in ["setup", "comm", "build", "total", "other"][::(-1) ** i]: s.timers("add", k)
    s.timers("get")
    for p in j["plans"]:
        small_plan(s, p, i); o = s.c.ops[-1]; o[1][:] = [x + " timed" for x in o[1]]; o[2]["timed"] = 1
        for k in ("setup", "comm", "build", "total"): s.tm[k] = [x + 1 for x in s.tm[k]]
        s.timers("upd", "other"); s.timers("get")
def s_face(s, j, i):
    """the same from C, from Fortran, and from C++"""
    s.short = 1; x = Script("x", s.n, s.rng); x.name = None; x.short = 1
    x.graph(small_graph(x, j)); x.valid()
    if i % 3 == 0: x.evaluate()
    if i % 3 == 1 and any(x.g.E): x.balance([(-1, 1050)], sf=.5, it=2, verb=0)
    if i % 3 == 2: x.save("f"); x.load("f")
    ops = keyed(x.c.ops[1:], "C18"); s.c.ops += through(ops, i % 2 + 1); s.c.ops += ops
def s_spread(s, j, i):
    """a graph on two processes spread over four, or on one over two, by every answer of the partitioner"""
    one = max(j["own"], default=0) == 0; f = 2; ns = 1 if one else 2; vc = s.c.id + "#s"
    order = [[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0]][i % 3]; large = order[:ns * f]; small = [large[k] for k in ([i // 3 % 2] if one else [[0, 2], [1, 2], [3, 1]][i // 3 % 3])]
    def emit(kind, members, toks, inp):
        full = [None] * s.n
        for k, r in enumerate(members): full[r] = toks[k] if isinstance(toks, list) else toks
        s.c.op(kind, full, inp, [{"vc": vc, "ranks": list(members), "in": inp}])
    def comm(name, members): s.commsplit(name, "world", [[0, members.index(r)] if r in members else [1 + r, 0] for r in range(s.n)])
    comm("s", small); s.switch(["s" if r in small else None for r in range(s.n)], i % 4)
    x = Script(s.c.id, ns, s.rng); x.short = 1; g = small_graph(x, j); g.n = ns; symmetric(g); intweights(g); x.graph(g)
    for kind, toks, inp, _ in x.c.ops[1:]: emit(kind, small, toks, inp)
    comm("l", large); mp = [large.index(r) for r in small]; local = not one or i % 2; free = [q for q in range(len(large)) if q not in mp]
    others = [[m, free[k]][::(-1) ** (i + k)] for k, m in enumerate(mp)]
    ans = {v: j["plans"][0][k] for k, v in enumerate(g.w)}; atoks = "%d " % len(ans) + " ".join("%d %d" % y for y in ans.items())
    method = "LOCAL_PARMETIS" if local else "GLOBAL_PARMETIS"; toks = []
    for k, r in enumerate(large):
        o = others[mp.index(k)] if k in mp and local else []
        toks.append("n %s s l %d 2 1.05 0 %d %s %s" % (method, r in small, len(o), " ".join(map(str, o)), atoks))
    emit("split", large, toks, {"method": method, "np": 2, "tol": 1050, "t": 1, "map": mp, "ans": [[str(v), p] for v, p in ans.items()], "others": others if local else [[] for _ in mp], "c": 0})
    y = Script(s.c.id, len(large), s.rng); y.g = g; g.n = len(large); g.own = {v: others[g.own[v]][ans[v]] if local else ans[v] for v in g.w}; y.oo = True
    y.proj(); y.getpart()
    for kind, toks, inp, _ in y.c.ops[1:]: emit(kind, large, toks, inp)
    for r in large: s.act[r] = list(large)
    s.switch(["world"] * s.n, i % 4)
s_spread.procs = 4
small(["C08"], s_tag, NP=2, NVs={1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C08"], s_tag, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=0)
small(["C24"], s_vtk, NP=2, NVs={0, 1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C24"], s_vtk, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C25", "C26", "C30"], s_select, NP=2, NVs={2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C25", "C26"], s_select, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=0)
small(["C25"], s_select, T, NP=2, NVs={4}, NT=1, ME=3, HY=True, Depth=0)
small(["C29"], s_pwb, NP=3, NVs={3}, NT=1, ME=2, HY=True, Depth=0)
small(["C29"], s_pwb, NP=2, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C29"], s_pwb, T, NP=2, NVs={4}, NT=1, ME=2, HY=True, Depth=0)
small(["C27"], s_corrupt, NP=2, NVs={1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C27"], s_corrupt, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C30"], s_timed, NP=2, NVs={2}, NT=1, ME=1, HY=True, Depth=2)
small(["C30"], s_timed, T, NP=3, NVs={2, 3}, NT=1, ME=1, HY=True, Depth=2)
small(["C18"], s_face, NP=2, NVs={1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C18"], s_face, NP=2, NVs={2, 3}, NT=2, ME=2, HY=False, Depth=0)
small(["C15"], s_spread, NP=2, NVs={1, 2, 3}, NT=1, ME=1, HY=True, Depth=1)
small(["C15"], s_spread, NP=2, NVs={2, 3}, NT=1, ME=1, HY=False, Depth=1)
small(["C15"], s_spread, T, NP=2, NVs={3}, NT=1, ME=2, HY=True, Depth=1)
small(["C17"], s_eval, NP=2, NVs={0, 1, 2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C17"], s_eval, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C19"], s_queue, NP=2, NVs={2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C19"], s_queue, T, NP=2, NVs={4}, NT=1, ME=3, HY=True, Depth=0)
small(["C19"], s_queue, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=0)
small(["C11", "C13"], s_bal, NP=2, NVs={2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C11", "C13"], s_bal, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=0)
small(["C11", "C12", "C13"], s_bal, T, NP=2, NVs={4}, NT=1, ME=2, HY=True, Depth=0)
small(["C12"], s_bal, NP=2, NVs={2, 3}, NT=2, ME=2, HY=True, Depth=0)
small(["C14"], s_wbal, NP=2, NVs={2, 3}, NT=1, ME=2, HY=True, Depth=0)
small(["C14"], s_wbal, NP=3, NVs={3}, NT=1, ME=2, HY=False, Depth=0)
small(["C16"], s_bin, NP=2, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C16"], s_bin, NP=3, NVs={2, 3}, NT=1, ME=2, HY=False, Depth=0)
small(["C16"], s_bin, T, NP=3, NVs={4}, NT=1, ME=2, HY=False, Depth=0)
small(["C09"], s_phases, module="GenComm", NP=3, Phases=1, Colours=0, Keys=0, Values=0)
small(["C09"], s_phases, module="GenComm", NP=2, Phases=2, Colours=0, Keys=0, Values=0)
small(["C09"], s_phases, T, module="GenComm", NP=2, Phases=3, Colours=0, Keys=0, Values=0)
small(["C10"], s_coll, module="GenComm", NP=3, Phases=0, Colours=0, Keys=0, Values=4)
small(["C10"], s_coll, module="GenComm", NP=5, Phases=0, Colours=0, Keys=0, Values=2)
small(["C10"], s_coll, T, module="GenComm", NP=7, Phases=0, Colours=0, Keys=0, Values=2)
small(["C20"], s_split, module="GenComm", NP=3, Phases=0, Colours=2, Keys=2, Values=0)
small(["C20"], s_split, module="GenComm", NP=4, Phases=0, Colours=2, Keys=2, Values=0)
small(["C20"], s_split, T, module="GenComm", NP=4, Phases=0, Colours=3, Keys=2, Values=0)
