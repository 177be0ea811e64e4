"""Scripts for the code under test, written from a model of the distributed graph.  The model here is
only used to write meaningful scripts (who owns what, which plans are possible); what the code then
shows is judged by the TLA+ specification, never by this file."""
import random, json

def wgt(x): return repr(x / 1000.0) if x % 1000 else str(x // 1000)

class Case:
    def __init__(self, cid, n, seed=1, mode=1):
        self.id, self.n, self.seed, self.mode = cid, n, seed, mode
        self.ops = []       # (kind, [text per rank], in, groups)
        self.meta = {}
    def op(self, kind, toks, inp=None, groups=None):
        """toks: one string for all ranks or a list (None: the rank skips)"""
        if not isinstance(toks, list): toks = [toks] * self.n
        assert len(toks) == self.n
        self.ops.append((kind, ["-" if t is None else str(t) for t in toks], inp if inp is not None else {}, groups))
        return len(self.ops) - 1
    def text(self):
        o = ["CASE %s %d %d %d" % (self.id, self.n, self.seed, self.mode)]
        for k, t, _, _ in self.ops:
            o.append("OP " + k)
            o += ["R " + x for x in t]
        return "\n".join(o) + "\n"
    def as_json(self):
        return {"id": self.id, "n": self.n, "seed": self.seed, "mode": self.mode,
                "ops": [[k, t, i, g] for k, t, i, g in self.ops], "meta": self.meta}
    @staticmethod
    def of_json(j):
        c = Case(j["id"], j["n"], j["seed"], j["mode"]); c.meta = j.get("meta", {})
        for k, t, i, g in j["ops"]: c.ops.append((k, t, i, g))
        return c
    def copy(self, cid=None, seed=None, mode=None):
        c = Case(cid or self.id, self.n, self.seed if seed is None else seed, self.mode if mode is None else mode)
        c.ops = list(self.ops); c.meta = dict(self.meta); return c

class Graph:
    """hy, verts {gid: weight*1000}, own {gid: rank}, order [gid], E [ [ (eid, w, [pins]) ] ]"""
    def __init__(self, n, hy):
        self.n, self.hy, self.w, self.own, self.E, self.coords = n, hy, {}, {}, [], None
        self.hasW, self.hasEW = True, []
    def copy(self):
        g = Graph(self.n, self.hy); g.w = dict(self.w); g.own = dict(self.own); g.E = [list(e) for e in self.E]
        g.hasW = self.hasW; g.hasEW = list(self.hasEW); g.coords = self.coords; return g
    def mine(self, r): return [v for v in self.w if self.own[v] == r]
    def held(self, t, r):
        m = set(self.mine(r))
        return [e for e in self.E[t] if (m & set(e[2]) if self.hy else e[2][0] in m)]
    def ghosts(self, r, types=None):
        m = set(self.mine(r)); g = []
        for t in (range(len(self.E)) if types is None else types):
            for e in self.held(t, r):
                for p in e[2]:
                    if p not in m and p not in g: g.append(p)
        return g

def rand_graph(rng, n, hy=None, nt=None, nv=None, ne=None, maxdeg=4, big=False, weights="mixed", place=None, deg1=True, multi=True, maxid=None, etw=None):
    hy = rng.random() < .65 if hy is None else hy
    g = Graph(n, hy)
    nv = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) if nv is None else nv
    nt = rng.choice([1, 1, 2, 2, 3]) if nt is None else nt
    if maxid: pool = rng.sample(range(maxid), nv)
    elif big: pool = rng.sample(range(0, 2**40), nv)
    else: pool = rng.sample(range(0, max(3 * nv, 4)), nv)
    g.hasW = weights != "unit" and rng.random() < .85
    fine = weights == "fine"
    for v in pool: g.w[v] = 1000 if not g.hasW else rng.choice([1000, 2000, 3000, 500, 1250, 5000] if weights == "mixed" else [98765, 1234567, 100, 333, 7001, 0] if fine else [1000, 2000, 3000])
    place = place or rng.choice(["random", "block", "skew", "one", "random"])
    for i, v in enumerate(pool):
        if place == "random": g.own[v] = rng.randrange(n)
        elif place == "block": g.own[v] = i * n // max(1, nv)
        elif place == "skew": g.own[v] = 0 if rng.random() < .6 else rng.randrange(n)
        else: g.own[v] = (n - 1) // 2
    for t in range(nt):
        k = rng.randrange(0, min(12, 2 * nv) + 1) if ne is None else ne
        es, hasE = [], (rng.random() < .7 if etw is None else etw)
        ids = rng.sample(range(maxid or (2**40 if big else 3 * k + 4)), k)
        for i in range(k):
            w = rng.choice([1000, 2000, 500, 4000] if not fine else [1000, 98765, 1234567, 333, 0]) if hasE else 1000
            if hy:
                d = rng.randrange(1 if deg1 else 2, maxdeg + 1); d = min(d, nv)
                if d == 0: continue
                if place == "block" and rng.random() < .7:   # local edges
                    s = rng.randrange(nv); pins = [pool[(s + j) % nv] for j in range(d)]
                else: pins = rng.sample(pool, d)
            else:
                if nv < 2: continue
                if place == "block" and rng.random() < .7:
                    s = rng.randrange(nv); pins = [pool[s], pool[(s + 1) % nv]]
                    if pins[0] == pins[1]: continue
                else: pins = rng.sample(pool, 2)
                if not multi and any(e[2] == pins for e in es): continue
            es.append((ids[i], w, pins))
        g.E.append(es); g.hasEW.append(hasE)
    return g

def graph_tokens(g, r, rng, form):
    o = []
    mine = g.mine(r); rng.shuffle(mine)
    o += [form, "1" if g.hy else "0", str(len(mine))] + [str(v) for v in mine] + ["1" if g.hasW else "0"]
    if g.hasW: o += [wgt(g.w[v]) for v in mine]
    o.append(str(len(g.E)))
    for t in range(len(g.E)):
        es = list(g.held(t, r)); rng.shuffle(es)
        hasE = g.hasEW[t]
        o += [str(len(es)), "1" if hasE else "0"]
        for eid, w, p in es: o += [str(eid), wgt(w), str(len(p))] + [str(x) for x in p]
    gh = g.ghosts(r)
    if rng.random() < .4: gh += [v for v in g.w if v not in gh and rng.random() < .4]    # owners of others, too, are named
    rng.shuffle(gh)
    o.append(str(len(gh)))
    for v in gh: o += [str(v), str(g.own[v])]
    return " ".join(o), mine

def edges_in(es): return [{"id": str(e), "w": w, "p": [str(x) for x in p]} for e, w, p in es]

COLLKIND = {"addi": "add", "addl": "add", "addd": "add", "addz": "add", "exi": "ex", "exl": "ex", "mini": "min", "mind": "min", "minz": "min", "maxi": "max", "maxd": "max", "maxz": "max"}
class Script:
    """A case under construction, with the model of the graph alongside."""
    def __init__(self, cid, n, rng, mode=None, seed=None, init="engpar"):
        self.rng, self.n = rng, n
        self.c = Case(cid, n, rng.randrange(1, 1 << 30) if seed is None else seed, rng.choice([0, 1, 1, 2, 2]) if mode is None else mode)
        self.g = None; self.fin = init; self.oo = False; self.lost = False; self.fine = False
        self.c.op("init", init, {"how": init}); self.act = [list(range(n)) for _ in range(n)]; self.comms = {}; self.ord = 1
    def graph(self, g, form=None, kind="graph", c=None):
        rng = self.rng
        forms = ["vec", "arr"]
        if len(g.E) == 1 and not g.hasEW[0]: forms.append("cg")
        form = form or rng.choice(forms)
        if form == "c":
            g.hasW = True; g.hasEW = [True] * len(g.E)
        kinds = {o[0] for o in self.c.ops}
        if kinds & {"graph", "cgraph"} and rng.random() < .5: form += "+"      # in the same object
        self.g = g; self.oo = False; self.lost = False
        toks, order = [], []
        for r in range(self.n):
            t, m = graph_tokens(g, r, rng, form); toks.append(t); order.append(m)
        V = [[{"g": str(v), "w": g.w[v] if g.hasW else 1000} for v in m] for m in order]
        E = [edges_in([(e, w if g.hasEW[t] else 1000, p) for e, w, p in g.E[t]]) for t in range(len(g.E))]
        c = 0
        if form in ("c", "c+"):
            c = c or self.rng.choice([1, 1, 2]); toks = ["%d %s" % (c, x) for x in toks]
        self.c.op(kind, toks, {"hy": 1 if g.hy else 0, "nt": len(g.E), "V": V, "E": E, "c": c})
        return self
    def known(self):
        """after a balancing run the model does not know who owns what: place every vertex anew"""
        if self.lost: self.repart()
    def mine(self, r): return list(self.g.w) if self.lost else self.g.mine(r)    # the driver leaves out what a process does not own
    def coords(self):
        g, rng = self.g, self.rng
        cs = {v: [rng.choice([rng.randrange(-4000, 4000, 125), rng.randrange(-9999999, 9999999)]) for _ in range(3)] for v in g.w}
        toks = []
        for r in range(self.n):
            m = self.mine(r)
            toks.append(" ".join([str(len(m))] + [" ".join([str(v)] + [repr(x / 1000.0) for x in cs[v]]) for v in m]))
        self.c.op("coords", toks, {"m": [{"g": str(v), "c": cs[v]} for v in g.w]}); g.coords = cs
    def setw(self):
        g, rng = self.g, self.rng
        ws = {v: rng.choice([1000, 2000, 7000, 250, 1500] if not self.fine else [1000, 98765, 1234567, 0]) for v in g.w}
        self.c.op("setw", [" ".join([str(len(self.mine(r)))] + ["%d %s" % (v, wgt(ws[v])) for v in self.mine(r)]) for r in range(self.n)],
                  {"m": [{"g": str(v), "w": ws[v]} for v in g.w]}); g.w = ws
    def setew(self, t):
        w = self.rng.choice([1000, 3000, 500, 2250] if not self.fine else [1000, 98765, 1234567, 0])
        self.c.op("setew", "%d %s" % (t, wgt(w)), {"t": t + 1, "w": w}); self.g.E[t] = [(e, w, p) for e, _, p in self.g.E[t]]
    def rmedges(self, t):
        self.c.op("rmedges", str(t), {"t": t + 1})
        if t == len(self.g.E) - 1: self.g.E.pop(); self.g.hasEW.pop()
        else: self.g.E[t] = []
    def addedges(self):
        self.known(); g, rng = self.g, self.rng
        h = rand_graph(rng, self.n, hy=g.hy, nt=1, nv=max(1, len(g.w)))
        vs = list(g.w)
        if not vs: return
        m = dict(zip(h.w.keys(), vs)); es = [(e, w, [m[x] for x in p]) for e, w, p in h.E[0]]
        # every process must pass weights or none
        t = len(g.E); g.E.append(es); g.hasEW.append(True)
        toks = []
        for r in range(self.n):
            hs = g.held(t, r); o = [str(t), str(len(hs))]
            for e, w, p in hs: o += [str(e), wgt(w), str(len(p))] + [str(x) for x in p]
            # ghosts of a type removed before may still be known to the process: name every owner
            gh = [v for v in g.w if g.own[v] != r]; o.append(str(len(gh)))
            for v in gh: o += [str(v), str(g.own[v])]
            toks.append(" ".join(o))
        self.c.op("addedges", toks, {"E": edges_in(es)})
    def rand_plan(self, style=None):
        """per rank list of (gid, dest); gid -1 clears the plan"""
        rng, g, n = self.rng, self.g, self.n
        style = style or rng.choice(["some", "all", "over", "one", "none", "gather", "swap", "self", "clear"])
        plans = []
        dest0 = rng.randrange(n)
        for r in range(n):
            p = []
            for v in self.mine(r):
                if style == "none": continue
                if style == "some" and rng.random() < .5: continue
                if style == "one" and rng.random() < .75: continue
                d = rng.randrange(n)
                if style == "gather": d = dest0
                if style == "swap": d = (r + 1) % n
                if style == "self" and rng.random() < .5: d = r
                p.append((v, d))
                if style == "over" and rng.random() < .6: p.append((v, rng.randrange(n)))
                if style == "over" and rng.random() < .2: p.append((v, d))
            rng.shuffle(p)
            if style == "clear":
                k = rng.randrange(len(p) + 1); p = p[:k] + [(-1, 0)] + p[k:][:rng.randrange(len(p) + 1)]
            plans.append(p)
        return plans
    # ---- timers
    def timers(self, do, k=None):
        """new; add a timer; add to one; read them all"""
        T = getattr(self, "tm", None)
        if do == "new": self.tm = {}; self.c.op("timers", "new", {"do": "new"})
        elif do == "add": T[k] = [0] * self.n; self.c.op("timers", "add " + k, {"do": "add", "k": k})
        elif do == "upd":
            v = [[self.rng.randrange(0, 80) * 125 for _ in range(self.rng.choice([0, 1, 1, 2, 3]))] for _ in range(self.n)]
            for r in range(self.n): T[k][r] += len(v[r])
            self.c.op("timers", ["upd %s %d %s" % (k, len(x), " ".join(repr(y / 1000.0) for y in x)) for x in v], {"do": "upd", "k": k, "v": [[y * 1000 for y in x] for x in v]})
        else: self.c.op("timers", "get " + " ".join("%s %d" % (k, min(T[k]) > 0) for k in sorted(T)), {"do": "get"})
    def timedmig(self):
        if not all(k in self.tm for k in ("setup", "comm", "build", "total")): return
        self.mig(); o = self.c.ops[-1]
        o[1][:] = [x + " timed" for x in o[1]]; o[2]["timed"] = 1
        for k in ("setup", "comm", "build", "total"): self.tm[k] = [x + 1 for x in self.tm[k]]
    def mig(self, plans=None, style=None):
        self.oo = True
        if plans is None and self.lost and self.rng.random() < .5: self.known()
        plans = self.rand_plan(style) if plans is None else plans
        self.c.op("mig", [" ".join([str(len(p))] + ["%d %d" % x for x in p]) for p in plans],
                  {"plan": [[[str(v), d] for v, d in p] for p in plans]})
        if self.lost: return
        for r, p in enumerate(plans):
            eff = {}
            for v, d in p:
                if v == -1: eff = {}
                else: eff[v] = d
            for v, d in eff.items(): self.g.own[v] = d
    def repart(self):
        self.oo = True
        g, rng = self.g, self.rng
        m = {v: rng.randrange(self.n) for v in g.w}
        self.c.op("repart", [" ".join([str(len(self.mine(r)))] + ["%d %d" % (v, m[v]) for v in self.mine(r)]) for r in range(self.n)],
                  {"m": [[str(v), m[v]] for v in g.w]})
        g.own = m; self.lost = False
    def setorigv(self):
        """tell where the vertices came from"""
        self.oo = True; m = {v: self.rng.randrange(self.n) for v in self.g.w}
        self.c.op("setorigv", [" ".join([str(len(self.g.mine(r)))] + ["%d %d" % (v, m[v]) for v in self.g.mine(r)]) for r in range(self.n)], {"m": [[str(v), m[v]] for v in self.g.w]})
    def simple(self, kind, toks="", inp=None): self.c.op(kind, toks, inp)
    def getpart(self, c=0): self.c.op("getpart", "%d -1" % c if c else "0", {"c": c})
    def proj(self): self.c.op("proj", "")
    def valid(self, c=0): self.c.op("valid", str(c), {"c": c})
    def save(self, name, c=0): self.c.op("save", "%d %s" % (c, name), {"c": c, "name": name})
    def load(self, name, fresh=1, c=0):
        self.oo = False
        self.c.op("load", "%d %s %d" % (c, name, fresh), {"c": c, "name": name})
    # ---- tags.  self.tags: id -> (kind, etyp, set of ghost?)
    def tagcmds(self, count):
        """random per-process sequences of set/get on the tags; creates new ones first (collectively named)"""
        self.known(); rng, g = self.rng, self.g
        if not hasattr(self, "tags"): self.tags, self.tagset = {}, [set() for _ in range(self.n)]
        new = []
        for _ in range(rng.choice([0, 1, 1, 2]) or (0 if any(self.tags.values()) else 1)):
            i = len(self.tags) + 1; self.tags[i] = (rng.randrange(3), rng.choice([-1] + list(range(len(g.E)))))
            new.append(i)
        live = [i for i in self.tags if self.tags[i]]
        dele = rng.choice(live) if len(live) > 2 and rng.random() < .3 else None
        toks, cmds = [], []
        for r in range(self.n):
            cs = [["new", str(i), str(self.tags[i][0]), str(self.tags[i][1])] for i in new]
            def ents(i):
                t = self.tags[i][1]
                if t == -1: return g.mine(r)
                es = g.held(t, r)
                return [e[0] for e in es] if g.hy else list(range(len(es)))
            def val(i):
                k = self.tags[i][0]
                if k == 0: return rng.choice([rng.randrange(-2**31, 2**31), rng.randrange(50)])
                if k == 1: return rng.choice([rng.randrange(-10**9, 10**9), rng.randrange(5000)])
                return rng.choice([rng.randrange(-2**60, 2**60), rng.randrange(50)])
            for _ in range(rng.randrange(count + 1)):
                i = rng.choice(live); es = ents(i)
                if not es: continue
                e = rng.choice(es)
                if (i, e) in self.tagset[r] and rng.random() < .55: cs.append(["get", str(i), str(e)])
                else: cs.append(["set", str(i), str(e), str(val(i))]); self.tagset[r].add((i, e))
            if rng.random() < .5:
                for (i, e) in sorted(self.tagset[r]): cs.append(["get", str(i), str(e)])
            if dele: cs.append(["del", str(dele)]); self.tagset[r] = {x for x in self.tagset[r] if x[0] != dele}
            cmds.append(cs); toks.append(" ".join(" ".join(c) for c in cs))
        if dele: self.tags[dele] = None
        self.c.op("tags", toks, {"cmds": cmds})
    def droptags(self, which=lambda t: True):
        """forget tags that an operation makes meaningless (the real ones are simply no longer used)"""
        for i in getattr(self, "tags", {}):
            if self.tags[i] and which(self.tags[i][1]):
                for r in range(self.n): self.tagset[r] = {x for x in self.tagset[r] if x[0] != i}
                self.tags[i] = None
    def gtag(self):
        self.known(); rng, g = self.rng, self.g
        if not hasattr(self, "tags"): self.tags, self.tagset = {}, [set() for _ in range(self.n)]
        if not hasattr(self, "gtags"): self.gtags = []
        i = 1000 + sum(1 for o in self.c.ops if o[0] == "gtag")
        # an ordinary vertex tag that every owner has set can be shared
        full = [j for j in self.tags if self.tags[j] and self.tags[j][1] == -1 and all((j, v) in self.tagset[g.own[v]] for v in g.w)]
        if full and rng.random() < .6:
            j = rng.choice(full); kind = self.tags[j][0]
            self.c.op("gtag", "%d %d %d" % (i, kind + 3, j), {"id": i, "of": str(j), "step": 0, "m": []})
        else:
            kind, salt = rng.randrange(3), rng.randrange(1000)
            f = [lambda v: (v % 1000003) * 3 + salt, lambda v: (v % 1000003) * 500 + salt * 1000, lambda v: (v % 1000003) * 7 + salt][kind]
            self.c.op("gtag", "%d %d %d" % (i, kind, salt), {"id": i, "of": "", "step": [7, 1000, 11][kind], "m": [{"g": str(v), "w": f(v)} for v in g.w]})
        self.gtags.append(i)
    def ghostget(self):
        ids = getattr(self, "gtags", [])
        if ids: self.c.op("ghostget", " ".join(map(str, ids)), {"ids": list(ids)})
    def settag_all(self, kind=None):
        """a vertex tag set on every vertex by its owner"""
        self.known(); rng, g = self.rng, self.g
        if not hasattr(self, "tags"): self.tags, self.tagset = {}, [set() for _ in range(self.n)]
        i = len(self.tags) + 1; self.tags[i] = (rng.randrange(3), -1)
        toks, cmds = [], []
        for r in range(self.n):
            cs = [["new", str(i), str(self.tags[i][0]), "-1"]]
            for v in g.mine(r): cs.append(["set", str(i), str(v), str(rng.randrange(-10**6, 10**9))]); self.tagset[r].add((i, v))
            cmds.append(cs); toks.append(" ".join(" ".join(c) for c in cs))
        self.c.op("tags", toks, {"cmds": cmds})
    def settag_on(self, t, kind=0):
        """a tag set on every vertex (t = -1) or every edge of type t, by every process that holds it"""
        self.known(); rng, g = self.rng, self.g
        if not hasattr(self, "tags"): self.tags, self.tagset = {}, [set() for _ in range(self.n)]
        i = len(self.tags) + 1; self.tags[i] = (kind, t); toks, cmds = [], []
        for r in range(self.n):
            cs = [["new", str(i), str(kind), str(t)]]
            es = g.held(t, r) if t >= 0 else []
            for x in g.mine(r) if t == -1 else [e[0] for e in es] if g.hy else range(len(es)):
                cs.append(["set", str(i), str(x), str(rng.choice([rng.randrange(-2**31, 2**31), rng.randrange(9)]))]); self.tagset[r].add((i, x))
            cmds.append(cs); toks.append(" ".join(" ".join(c) for c in cs))
        self.c.op("tags", toks, {"cmds": cmds}); return i
    def bigstats(self):
        hy = self.rng.random() < .5; nt = self.rng.choice([1, 3, 7, 7]); c = [[self.rng.choice([0, 7, 90, 12000]) for _ in range(nt)] for _ in range(self.n)]
        if self.rng.random() < .5: c[0] = [12000 + t for t in range(nt)]
        self.c.op("bigstats", ["%d %d %s" % (hy, nt, " ".join(map(str, x))) for x in c], {"hy": int(hy), "nt": nt, "cnt": c})
    def vtk(self, name, tag=-1, t=-2): self.c.op("vtk", "%s %d %d" % (name, tag, t), {"name": name, "id": str(tag), "t": t})
    # ---- second adjacencies
    def adj(self, kind, t, comp):
        self.c.op(kind, "%d %d" % (t, comp), {"k": kind, "t": t + 1, "comp": comp})
        if not hasattr(self, "made"): self.made = set()
        self.made.add((kind, t))
    def reada(self):
        m = sorted(getattr(self, "made", ()))
        if m:
            kind, t = self.rng.choice(m); self.c.op("reada", "%s %d" % (kind, t), {"k": kind, "t": t + 1})
    # ---- balancing
    def balance(self, pri, sf=.1, it=None, itt=None, sides=0, ghosts=0, dq=None, push=None, mincon=None, pwb=0, cut=None, verb=0, c=0, toggle=0, talk=1):
        """pri: [(dimension, tolerance x1000)]"""
        self.oo = self.oo or self.n > 1; self.lost = self.n > 1
        o = ["%d %s %d" % (c, repr(sf), len(pri))] + ["%d %s" % (d, repr(t / 1000.0)) for d, t in pri]
        if it is not None: o.append("it %d" % it)
        if itt is not None: o.append("itt %d" % itt)
        if sides: o.append("sides %d" % sides)
        if toggle: o.append("ghosts %d" % (1 - ghosts))
        if ghosts or toggle: o.append("ghosts %d" % ghosts)
        if dq is not None: o.append("dq %d" % dq)
        if push is not None: o.append("push %d" % push)
        if mincon is not None: o.append("mincon %d" % mincon)
        if pwb: o.append("pwb 1")
        if cut is not None: o.append("cut %s" % repr(cut))
        o.append("verb %d" % verb)
        self.c.op("balance", " ".join(o), {"pri": [{"d": d, "tol": t} for d, t in pri], "it": 1000 if it is None else it, "itt": 100 if itt is None else itt,
                  "sf": int(round(sf * 1000)), "sides": sides, "ghosts": ghosts, "mincon": mincon or 1, "pwb": pwb, "c": c, "cut": int(round((cut or 0) * 1000)), "verb": verb, "talk": talk})
    def imbalance(self, d, ghosts=0):
        """largest load times processes over the sum of loads, in thousandths (rounded down)"""
        g = self.g
        def load(r): return sum(g.w[v] for v in g.mine(r) + (g.ghosts(r) if ghosts else [])) if d == -1 else sum(e[1] for e in g.held(d, r))
        L = [load(r) for r in range(self.n)]
        return max(L) * self.n * 1000 // sum(L) if sum(L) else None
    def wmig(self):
        self.known(); rng, g = self.rng, self.g
        plan = []
        for r in range(self.n):
            mine, gh, p, left = g.mine(r), g.ghosts(r), [], {}
            for _ in range(rng.choice([0, 1, 2, 4, 6])):
                if mine and gh:
                    u = rng.choice(mine); left.setdefault(u, g.w[u])
                    w = rng.choice([250, 500, 1000, 750])
                    if w <= left[u]: left[u] -= w; p.append((u, rng.choice(gh), w))
            plan.append(p)
        self.c.op("wmig", [" ".join([str(len(p))] + ["%d %d %s" % (u, v, wgt(w)) for u, v, w in p]) for p in plan],
                  {"plan": [[[str(u), str(v), w] for u, v, w in p] for p in plan]})
        for p in plan:
            for u, v, w in p: g.w[u] -= w; g.w[v] += w
    def wplan(self):
        """a plan for moving weight, changed and asked about on each process"""
        self.known(); rng, g = self.rng, self.g
        toks, ins = [], []
        for r in range(self.n):
            mine, gh, have, c = g.mine(r), g.ghosts(r), set(), []
            for _ in range(rng.randrange(0, 14)):
                o = rng.choice("iiiiHHhhgslc")
                u = rng.choice(mine) if mine else None; v = rng.choice(gh) if gh else None
                if o in "iHgh" and (u is None or (v is None and o != "h")): continue
                if o == "g":
                    if not have: continue
                    u, v = rng.choice(sorted(have))
                w = rng.choice([250, 500, 1000, 2750, 40000]) if o == "i" else 0
                if o == "i": have.add((u, v))
                if o == "c": have = set()
                c.append((o, u, v, w))
            f = {"i": lambda u, v, w: "i %d %d %s" % (u, v, wgt(w)), "H": lambda u, v, w: "H %d %d" % (u, v), "g": lambda u, v, w: "g %d %d" % (u, v), "h": lambda u, v, w: "h %d" % u,
                 "s": lambda *a: "s", "l": lambda *a: "l", "c": lambda *a: "c"}
            toks.append(" ".join([str(len(c))] + [f[o](u, v, w) for o, u, v, w in c]))
            ins.append([{"o": o, "u": "" if u is None or o in "slc" else str(u), "v": "" if v is None or o in "slch" else str(v), "w": w} for o, u, v, w in c])
        self.c.op("wplan", toks, {"s": ins})
    def msg(self):
        rng = self.rng; how = rng.choice("svvvvwe"); lv = rng.randrange(-1, 4); verb = rng.randrange(-1, 4); tx = rng.choice(["hello", "x=1", "a:b"])
        self.c.op("msg", "%s %d %d %s" % (how, lv, verb, tx), {"how": how, "lv": lv, "verb": verb, "txt": tx})
    def pcuio(self, name):
        import struct
        rng = self.rng; toks, ins = [], []
        for r in range(self.n):
            t, q = [], []
            for _ in range(rng.randrange(0, 7)):
                o = rng.choice("udsb"); m = rng.choice([0, 1, 1, 2, 3, 7]) if rng.random() < .9 else rng.randrange(60)
                if o == "u": v = [rng.choice([0, 1, 255, 256, 65536, 16909060, 2**31 - 1, rng.randrange(2**31)]) for _ in range(m)]; t += ["u", str(m)] + [str(x) for x in v]; q.append({"o": o, "v": v})
                elif o == "d":
                    v = [rng.choice([0, 1000, -1000, 250, 1, -333, rng.randrange(-2 * 10**6, 2 * 10**6)]) for _ in range(m)]
                    t += ["d", str(m)] + [repr(x / 1000.0) for x in v]; q.append({"o": o, "v": v, "be": [list(struct.pack(">d", x / 1000.0)) for x in v]})
                else: v = [rng.randrange(1, 256) if o == "s" else rng.choice([0, 0, 10, 255, rng.randrange(256)]) for _ in range(m)]; t += [o, str(m)] + [str(x) for x in v]; q.append({"o": o, "v": v})
            toks.append(" ".join([name, str(len(q))] + t)); ins.append(q)
        self.c.op("pcuio", toks, {"s": ins})
    def debug(self):
        rng = self.rng; toks, ins = [], []
        for r in range(self.n):
            op = int(rng.random() < .4); tx = [rng.choice(["here", "value=3", "%%", "step"]) for _ in range(rng.randrange(3))]
            toks.append(" ".join([str(op), str(len(tx))] + tx)); ins.append({"open": op, "tx": tx})
        self.c.op("debug", toks, {"s": ins})
    def wbal(self, tol, sf, t=0, it=100, verb=0):
        self.c.op("wbal", "%s %s %d %d %d" % (repr(tol / 1000.0), repr(sf), t, it, verb), {"tol": tol, "sf": int(round(sf * 1000)), "t": t + 1, "it": it, "verb": verb, "talk": 1})
        self.stale = True     # the model no longer knows the weights
    def binload(self, name, nv, edges, part=None):
        """part: process of each vertex, or None (then the library chooses and the model cannot know the owners)"""
        self.oo = False
        self.c.op("binfile", ["%s %d %s %d %s" % (name, len(edges), " ".join("%d %d" % e for e in edges), -1 if part is None else nv, "" if part is None else " ".join(map(str, part)))] + [None] * (self.n - 1))
        self.c.op("barrier", "")
        self.c.op("binload", "%s %d" % (name, 0 if part is None else 1), {"verts": [str(v) for v in range(nv)], "part": [] if part is None else [[str(v), part[v]] for v in range(nv)],
                  "E": [{"id": str(i), "w": 1000, "p": [str(a), str(b)]} for i, (a, b) in enumerate(edges)]})
        g = Graph(self.n, False)
        for v in range(nv): g.w[v] = 1000; g.own[v] = part[v] if part is not None else v // (nv // self.n + 1)
        g.E = [[(i, 1000, list(e)) for i, e in enumerate(edges)]]; g.hasEW = [False]; self.g = g
    # ---- messages, collectives, communicators.  part: the processes that take part (whole groups)
    def order(self, on): self.c.op("order", str(on), {"on": on}); self.ord = on
    def phase(self, mode="r", part=None, heavy=False):
        rng = self.rng; part = range(self.n) if part is None else part
        toks, sends = [None] * self.n, [[] for _ in range(self.n)]
        k0 = rng.choice([0, 1, 2, 4, 8]); hub = rng.randrange(64)
        for r in part:
            m = len(self.act[r]); style = rng.choice(["any", "all", "one", "none", "hub", "any"])
            for _ in range(rng.randrange(k0 + 1) if style == "any" else 0): sends[r].append([rng.randrange(m), rng.randrange(10**6), rng.choice([0, 1, 3, 8, 40, 400])])
            if style == "all": sends[r] += [[q, rng.randrange(10**6), rng.choice([0, 5, 100])] for q in rng.sample(range(m), m)] * rng.choice([1, 1, 2])
            if style == "one": sends[r].append([rng.randrange(m), rng.randrange(10**6), (4000 if rng.random() < .9 else rng.choice([70000, 300000])) if heavy else 9])
            if style == "hub": sends[r] += [[hub % m, rng.randrange(10**6), 17] for _ in range(rng.choice([1, 3]))]
            toks[r] = "%s %d" % (mode, len(sends[r])) + "".join(" %d %d %d" % tuple(x) for x in sends[r])
        self.c.op("phase", toks, {"sends": sends, "ord": self.ord, "mode": mode})
    def phase_of(self, sends, mode="r", part=None):
        """sends[r]: whom r sends to, by number in its communicator"""
        part = range(self.n) if part is None else part
        out = [[[q, (r * 31 + q * 7 + len(self.c.ops)) % 1000, (3 * r + q) % 11] for q in sends[r]] for r in range(self.n)]
        self.c.op("phase", ["%s %d" % (mode, len(out[r])) + "".join(" %d %d %d" % tuple(x) for x in out[r]) if r in part else None for r in range(self.n)], {"sends": out, "ord": self.ord, "mode": mode})
    def coll_of(self, f, V):
        """V: one value per process"""
        self.c.op("coll", ["%s 1 %d" % (f, v) for v in V], {"f": COLLKIND.get(f, f), "v": [[list(divmod(v, 10**6))] for v in V]})
    def coll(self, f, part=None, n=None):
        """one kind of reduction; the groups that take part may pass different numbers of values"""
        rng = self.rng; part = range(self.n) if part is None else part
        one = n is None and rng.random() < .4
        size = {}
        toks, V = [None] * self.n, [[] for _ in range(self.n)]
        for r in part:
            k = size.setdefault(tuple(self.act[r]), 1 if one or f in ("or", "and") else ((rng.choice([0, 1, 2, 3, 7, 33]) if rng.random() < .98 else rng.choice([200, 700])) if n is None else n))
            for _ in range(k):
                if f in ("or", "and"): x = rng.choice([0, 0, 0, 1, 2, -1] if f == "or" else [1, 1, 1, 3, 0, 2, -1])
                elif f in ("addi", "exi"): x = rng.choice([rng.randrange(-10**7, 10**7), rng.randrange(-9, 9), 0])
                elif f in ("mini", "maxi"): x = rng.choice([rng.randrange(-2**31, 2**31), rng.randrange(-3, 4), -2**31, 2**31 - 1])
                elif f in ("addl", "exl"): x = rng.choice([rng.randrange(-10**13, 10**13), rng.randrange(-9, 9)])
                elif f in ("addz", "minz", "maxz"): x = rng.choice([rng.randrange(0, 10**13), rng.randrange(0, 5), 2**32, 2**32 - 1])
                else: x = rng.choice([rng.randrange(-10**9, 10**9) * 125, rng.randrange(-10, 10) * 125])
                V[r].append(x)
            toks[r] = "%s%s %d %s" % ("1" if one and k == 1 else "", f, k, " ".join(map(str, V[r])))
        g = COLLKIND.get(f, f)
        self.c.op("coll", toks, {"f": g, "v": [[list(divmod(x, 10**6)) for x in v] for v in V]})
    def barrier(self, part=None): self.c.op("barrier", [("" if part is None or r in part else None) for r in range(self.n)])
    def info(self, part=None): self.c.op("info", [("" if part is None or r in part else None) for r in range(self.n)])
    def commsplit(self, name, base, ck, part=None):
        part = range(self.n) if part is None else part
        self.c.op("commsplit", ["%s %s %d %d" % (name, base, ck[r][0], ck[r][1]) if r in part else None for r in range(self.n)], {"name": name, "base": base, "ck": ck})
        b = self.comm(base); new = [[] for _ in range(self.n)]
        for r in part:
            if ck[r][0] >= 0: new[r] = sorted([x for x in b[r] if ck[x][0] == ck[r][0]], key=lambda x: (ck[x][1], b[r].index(x)))
        self.comms[name] = new
    def comm(self, name):
        if name == "world": return [list(range(self.n)) for _ in range(self.n)]
        if name == "self": return [[r] for r in range(self.n)]
        return self.comms[name]
    def switch(self, to, how):
        """to: name per process, or None"""
        self.c.op("switch", ["%s %d" % (x, how) if x else None for x in to], {"to": [x or "" for x in to], "how": how})
        for r, x in enumerate(to):
            if x: self.act[r] = self.comm(x)[r]
    def appsend(self, name, sends):
        """sends[r]: [to, tag, value]; matched later by apprecv"""
        self.c.op("appsend", ["%s %d" % (name, len(s)) + "".join(" %d %d %d" % tuple(x) for x in s) for s in sends], {"name": name, "s": sends})
        b = self.comm(name); self.pend = getattr(self, "pend", [])
        for r in range(self.n): self.pend += [(name, b[r].index(r), b[r][x[0]], x[1]) for x in sends[r]]
    def apprecv(self, name):
        w = [[[p[1], p[3]] for p in self.pend if p[0] == name and p[2] == r] for r in range(self.n)]
        for x in w: self.rng.shuffle(x)
        self.c.op("apprecv", ["%s %d" % (name, len(x)) + "".join(" %d %d" % tuple(y) for y in x) for x in w], {"name": name, "w": w})
        self.pend = [p for p in self.pend if p[0] != name]
    def groups(self):
        """the groups of processes whose active communicators are the same"""
        g = {}
        for r in range(self.n): g.setdefault(tuple(self.act[r]), []).append(r)
        return [v for k, v in g.items()]
    def queue(self, dist, push): self.c.op("queue", "%d %d" % (dist, push), {"dist": dist})
    def evaluate(self, c=0): self.c.op("eval", str(c), {"c": c})
    def imb(self, gh): self.c.op("imb", str(gh), {"ghosts": gh})
    def sched(self, mode=None):
        self.c.op("sched", "%d %d" % (self.rng.choice([0, 1, 2, 2]) if mode is None else mode, self.rng.randrange(1, 1 << 30)))
    def end(self):
        self.c.op("fini", self.fin, {"how": self.fin})
        self.c.op("end", "")
        return self.c

# ---------------------------------------------------------------- partitioned meshes
def mesh_graph(rng, n, hy=True, nt=None, small=False, wts=None, ewts=None):
    """cells of a strip or grid joined by edges through common sides (type 0), corners or longer runs (others)"""
    a, b = rng.choice([(6, 1), (8, 1), (3, 2), (4, 2), (3, 3)] if small else [(10, 1), (16, 1), (5, 3), (4, 4), (6, 3), (8, 2), (6, 4), (24, 1)])
    cells = [(i, j) for i in range(a) for j in range(b)]
    pool = rng.sample(range(4 * len(cells)), len(cells)); gid = dict(zip(cells, pool))
    g = Graph(n, hy)
    wts = wts or rng.choice([[1000], [1000], [1000, 2000], [500, 1000, 2750], [250, 4000]])
    g.hasW = True
    for c in cells: g.w[gid[c]] = rng.choice(wts)
    kind = rng.choice(["strip", "skew", "skew", "random", "one", "two"])
    cut = sorted(rng.sample(range(1, len(cells)), min(n - 1, len(cells) - 1))) if n > 1 else []
    for k, c in enumerate(cells):
        if kind == "strip": r = k * n // len(cells)
        elif kind == "skew": r = sum(1 for x in cut if x <= k)
        elif kind == "random": r = rng.randrange(n)
        elif kind == "one": r = 0 if k > n else k % n
        else: r = 0 if k * 3 < len(cells) * 2 else 1 + rng.randrange(max(1, n - 1)) if n > 1 else 0
        g.own[gid[c]] = min(r, n - 1)
    nt = rng.choice([1, 1, 2, 2, 3]) if nt is None else nt
    for t in range(nt):
        pins = []
        style = 0 if t == 0 else rng.randrange(4)
        for (i, j) in cells:
            if style == 0:
                for d in ((1, 0), (0, 1)):
                    if (i + d[0], j + d[1]) in gid: pins.append([gid[(i, j)], gid[(i + d[0], j + d[1])]])
            elif style == 1:
                p = [gid[x] for x in ((i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)) if x in gid]
                if len(p) > 1: pins.append(p)
            elif style == 2:
                p = [gid[x] for x in ((i, j), (i + 1, j), (i + 2, j)) if x in gid]
                if len(p) > 1 or rng.random() < .3: pins.append(p)
            elif rng.random() < .5: pins.append(rng.sample(pool, min(len(pool), rng.choice([2, 2, 3]))))
        if not hy:
            q = []
            sym = rng.random() < .5
            for p in pins:
                p = list(p); rng.shuffle(p); q.append(p[:2])
                if sym or rng.random() < .3: q.append(p[:2][::-1])
            pins = [p for p in q if len(p) == 2]
        if rng.random() < .25: pins = [p for p in pins if rng.random() < .8]
        ids = rng.sample(range(4 * len(pins) + 4), len(pins))
        ew = ewts or rng.choice([[1000], [1000], [1000, 2000], [500, 1000], [250, 3000, 750], [500]])
        hasE = ew != [1000] or rng.random() < .5
        g.E.append([(ids[k], rng.choice(ew), p) for k, p in enumerate(pins)]); g.hasEW.append(hasE)
    return g

def pieces_graph(rng, n):
    """each process has several separate paths or trees, joined to other processes here and there"""
    g = Graph(n, True); pool = rng.sample(range(4000), 130); es = []; cells = {r: [] for r in range(n)}
    g.hasW = False; g.hasEW = [False]
    for r in range(n):
        if rng.random() < .25 and r: k, size = 1, (1, 3)
        else: k, size = rng.choice([1, 2, 2, 3, 4]), (1, 14)
        for _ in range(k):
            m = min(rng.randrange(*size), len(pool)); comp = [pool.pop() for _ in range(m)]
            style = rng.choice(["path", "path", "tree", "ring", "clump"])
            for i, v in enumerate(comp):
                g.w[v] = 1000; g.own[v] = r
                if i and style in ("path", "ring"): es.append([comp[i - 1], v])
                elif i and style == "tree": es.append([comp[rng.randrange(i)], v])
            if style == "ring" and m > 2: es.append([comp[-1], comp[0]])
            if style == "clump":
                for i in range(0, m - 1, 2): es.append(comp[i:i + 3])
            cells[r].append(comp)
    for r in range(n):
        for comp in cells[r]:
            others = [v for v in g.w if g.own[v] != r]
            if not others or not comp: continue
            for v in rng.sample(comp, min(len(comp), rng.choice([0, 1, 2, 3, 4]))):
                es.append([v] + rng.sample(others, min(len(others), rng.choice([1, 1, 1, 2]))))
    ids = rng.sample(range(3 * len(es) + 3), len(es))
    for p in es: rng.shuffle(p)
    g.E.append([(ids[i], 1000, p) for i, p in enumerate(es)])
    return g
