------------------------------- MODULE Conform ------------------------------
(* What every process shows through the public interface (its projection P),  *)
(* compared with the abstract graph G.  Each operator gives the set of names   *)
(* of the clauses that fail.                                                   *)
EXTENDS NGraph

F(name, ok) == IF ok THEN {} ELSE {name}
Gids(s) == {s[i].g : i \in DOMAIN s}
Bit(b) == IF b THEN 1 ELSE 0
Uniq(s) == Cardinality(Ran(s)) = Len(s)

(* out: sequence over processes (process r at r+1) *)
Mine(P) == Gids(P.V)
OneOwner(out, V) ==
  /\ \A r \in DOMAIN out : Cardinality(Mine(out[r])) = Len(out[r].V)
  /\ UNION {Mine(out[r]) : r \in DOMAIN out} = V
  /\ SumSeq([r \in DOMAIN out |-> Len(out[r].V)]) = Cardinality(V)
ObsOwn(out, V) == [v \in V |-> (CHOOSE r \in DOMAIN out : v \in Mine(out[r])) - 1]

VtxBad(G, out) ==
  LET one == OneOwner(out, G.V)
      rec(f(_, _)) == \A r \in DOMAIN out : \A i \in DOMAIN out[r].V :
                         LET x == out[r].V[i] IN x.g \in G.V => f(x, x.g)
      wf(x, g) == x.w = G.w[g]
      cf(x, g) == IF G.hasc THEN x.c = G.c[g] ELSE x.c = <<>>
      of(x, g) == IF G.hasoo THEN x.oo \in {-1, G.oo[g]} ELSE TRUE
  IN F("vertices", one)
     \cup (IF one THEN F("owner", ObsOwn(out, G.V) = G.own) ELSE {})
     \cup F("weight", rec(wf)) \cup F("coords", rec(cf)) \cup F("orig", rec(of))

(* edges on each process, given which vertices it really shows as its own *)
EdgeBad(G, out) ==
  LET okRank(r, t) ==
        LET P == out[r]
            es == P.E[t]
            exp == {e \in G.E[t] : HoldsWith(G.hy, Mine(P), e)}
        IN IF G.hy
           THEN /\ Len(es) = Cardinality(exp)
                /\ {[id |-> es[i].g, w |-> es[i].w, p |-> es[i].p] : i \in DOMAIN es} = exp
           ELSE /\ Len(es) = Cardinality(exp)
                /\ \A x \in {<<e.p, e.w>> : e \in exp} :
                     Cardinality({i \in DOMAIN es : <<es[i].p, es[i].w>> = x}) = Cardinality({e \in exp : <<e.p, e.w>> = x})
  IN F("types", \A r \in DOMAIN out : out[r].nt = G.nt /\ out[r].hy = Bit(G.hy))
     \cup F("edges", \A r \in DOMAIN out : out[r].nt = G.nt => \A t \in Types(G) : okRank(r, t))

GhostBad(G, out) ==
  LET own == ObsOwn(out, G.V)
      one == OneOwner(out, G.V)
      exp(P) == (UNION {UNION {Ran(P.E[t][i].p) : i \in DOMAIN P.E[t]} : t \in DOMAIN P.E}) \ Mine(P)
      real(r, x) == x.g \in G.V /\ (G.gx => x.g \in exp(out[r]))
  IN F("ghosts", \A r \in DOMAIN out : 
          IF G.gx THEN exp(out[r]) \subseteq Gids(out[r].H) /\ Gids(out[r].H) \cap Mine(out[r]) = {} /\ Len(out[r].H) = Cardinality(Gids(out[r].H))
          ELSE Gids(out[r].H) = exp(out[r]) /\ Len(out[r].H) = Cardinality(exp(out[r])))
     \cup F("ghostowner", one => \A r \in DOMAIN out : \A i \in DOMAIN out[r].H :
               LET x == out[r].H[i] IN real(r, x) => x.o = own[x.g])
     \cup (IF G.gw /\ G.n > 1
           THEN F("ghostweight", \A r \in DOMAIN out : \A i \in DOMAIN out[r].H :
               LET x == out[r].H[i] IN real(r, x) => x.w = G.w[x.g])
           ELSE {})

CountBad(G, out) ==
  F("counts", \A r \in DOMAIN out :
     /\ out[r].gv = ToString(GlobalVtxs(G))
     /\ out[r].nt = G.nt => \A t \in Types(G) :
          /\ out[r].ge[t] = ToString(GlobalEdges(G, t))
          /\ out[r].gp[t] = ToString(GlobalPins(G, t)))

(* traversal of one process's share agrees with itself *)
LocalOK(P, r) ==
  LET nl == Len(P.V)
      nh == Len(P.H)
      hy == P.hy = 1
  IN /\ P.nl = nl /\ P.ng = nh /\ P.nv = nl + nh
     /\ \A i \in DOMAIN P.V : P.V[i].l = i - 1 /\ P.V[i].f = 1 /\ P.V[i].o = r
     /\ {P.H[i].l : i \in DOMAIN P.H} = nl..(nl + nh - 1)
     /\ \A i \in DOMAIN P.H : P.H[i].f = 1
     /\ \A t \in DOMAIN P.E :
          LET es == P.E[t]
              as == P.A[t]
          IN /\ Len(es) = P.le[t]
             /\ {es[i].l : i \in DOMAIN es} = 0..(Len(es) - 1)
             /\ \A i \in DOMAIN es : /\ es[i].d = Len(es[i].p)
                                     /\ ~hy => /\ es[i].g = ToString(es[i].l) /\ Len(es[i].p) = 2
                                               /\ es[i].u = es[i].p[1] /\ es[i].v = es[i].p[2]
             /\ P.lp[t] = SumSeq([i \in DOMAIN es |-> es[i].d])
             /\ Len(as) = nl
             /\ \A i \in DOMAIN as :
                  LET a == as[i]
                      inc == {k \in DOMAIN es : IF hy THEN a.g \in Ran(es[k].p) ELSE es[k].p[1] = a.g}
                      tgt(k) == IF hy THEN Ran(es[k].p) ELSE {es[k].p[2]}
                  IN /\ a.g = P.V[i].g
                     /\ a.d = Len(a.e)
                     /\ Ran(a.e) = {es[k].l : k \in inc} /\ Len(a.e) = Cardinality(inc)
                     /\ Len(a.n) = Len(a.ne)
                     /\ {<<a.ne[j], a.n[j]>> : j \in DOMAIN a.n} = UNION {{<<es[k].l, x>> : x \in tgt(k)} : k \in inc}
                     /\ Len(a.n) = SumOver(inc, [k \in inc |-> Cardinality(tgt(k))])
LocalBad(out) == F("local", \A r \in DOMAIN out : LocalOK(out[r], r - 1))

ResBad(G, out) ==
  LET own == ObsOwn(out, G.V)
  IN F("residence", OneOwner(out, G.V) => \A r \in DOMAIN out : \A t \in DOMAIN out[r].E : \A i \in DOMAIN out[r].E[t] :
       LET e == out[r].E[t][i] IN
         Ran(e.p) \subseteq G.V =>
           LET res == {own[v] : v \in Ran(e.p)} IN
             /\ Ran(e.r) = res /\ Ran(e.ro) = res
             /\ e.cut = Bit(Cardinality(res) > 1))

ViewBad(G, out) == VtxBad(G, out) \cup EdgeBad(G, out) \cup GhostBad(G, out) \cup CountBad(G, out)
                   \cup LocalBad(out) \cup ResBad(G, out)

(* the abstract graph that an observation shows; used to go on after a failure *)
Abs(G, out) ==
  LET V == UNION {Mine(out[r]) : r \in DOMAIN out}
      find(v) == CHOOSE r \in DOMAIN out : v \in Mine(out[r])
      rec == [v \in V |-> LET r == find(v) IN out[r].V[CHOOSE i \in DOMAIN out[r].V : out[r].V[i].g = v]]
      hy == out[1].hy = 1
      nt == out[1].nt
      es(t) == UNION {{ [id |-> IF hy THEN out[r].E[t][i].g ELSE ToString(r) \o "." \o out[r].E[t][i].g,
                         w |-> out[r].E[t][i].w, p |-> out[r].E[t][i].p] : i \in DOMAIN out[r].E[t] } :
                      r \in {x \in DOMAIN out : t \in DOMAIN out[x].E} }
  IN [n |-> G.n, hy |-> hy, nt |-> nt, V |-> V, own |-> [v \in V |-> find(v) - 1], w |-> [v \in V |-> rec[v].w],
      hasc |-> \E v \in V : rec[v].c # <<>>, c |-> [v \in V |-> rec[v].c],
      hasoo |-> G.hasoo, oo |-> [v \in V |-> IF rec[v].oo >= 0 THEN rec[v].oo ELSE IF G.hasoo /\ v \in G.V THEN G.oo[v] ELSE find(v) - 1],
      E |-> [t \in 1..nt |-> es(t)], gw |-> FALSE, gx |-> TRUE]
=============================================================================
