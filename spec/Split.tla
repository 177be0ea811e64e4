-------------------------------- MODULE Split --------------------------------
(* Splitting a graph that lives on a small set of processes over a larger set: *)
(* what the external partitioner must be given, and where its answer puts the   *)
(* vertices.  G is the graph before, in the numbering of the small set;         *)
(* In.map[i+1] is the number in the larger set of process i of the small one;   *)
(* In.ans says for every vertex what the partitioner answers.                   *)
EXTENDS Conform

ReachOf(G, e, v) == (IF G.hy THEN Pins(e) ELSE {e.p[2]}) \ {v}
(* neighbours of v through type t, with the summed weight of the joining edges *)
NbrWeights(G, t, v) ==
  LET inc == {e \in G.E[t] : IF G.hy THEN v \in Pins(e) ELSE e.p[1] = v}
      nb == UNION {ReachOf(G, e, v) : e \in inc}
  IN [u \in nb |-> LET js == {e \in inc : u \in ReachOf(G, e, v)} IN SumOver(js, [e \in js |-> e.w])]

AnswerOf(In, v) == (CHOOSE x \in Ran(In.ans) : x[1] = v)[2]
Destination(G, In, v) == IF In.method = "LOCAL_PARMETIS" THEN In.others[G.own[v] + 1][AnswerOf(In, v) + 1] ELSE AnswerOf(In, v)
MapRanks(m, map) == [v \in DOMAIN m |-> map[m[v] + 1]]
(* the graph renumbered, its original owners recorded, and its vertices moved *)
OnLarge(G, n, map) == WithOO([G EXCEPT !.n = n, !.own = MapRanks(G.own, map), !.oo = IF G.hasoo THEN MapRanks(G.oo, map) ELSE G.oo])
SplitGraph(G, n, In) == Migrate(OnLarge(G, n, In.map), [v \in G.V |-> Destination(G, In, v)])

(* ------------------------------------------------------------------ ParMETIS *)
(* inp[i]: what process i-1 of the small set passed *)
MetisBad(G, In, inp) ==
  LET ns == Len(inp)
      local == In.method = "LOCAL_PARMETIS"
      cnt(i) == Cardinality(Owned(G, i - 1))
      fields(i) == inp[i].kind = "parmetis" /\ inp[i].n = (IF local THEN 1 ELSE ns) /\ inp[i].r = (IF local THEN 0 ELSE i - 1)
                   /\ inp[i].np = In.np /\ inp[i].tol = In.tol /\ inp[i].tp = 1
                   /\ inp[i].nf = 0 /\ inp[i].nc = 1 /\ inp[i].wf = 3
      dist(i) == IF local THEN inp[i].dist = <<0, cnt(i)>>
                 ELSE Len(inp[i].dist) = ns + 1 /\ inp[i].dist[1] = 0 /\ \A j \in 1..ns : inp[i].dist[j + 1] = inp[i].dist[j] + cnt(j)
      ids(i) == Len(inp[i].ids) = cnt(i) /\ Ran(inp[i].ids) = Owned(G, i - 1)
      shape(i) == Len(inp[i].xadj) = cnt(i) + 1 /\ inp[i].xadj[1] = 0 /\ inp[i].xadj[cnt(i) + 1] = Len(inp[i].adj) /\ Len(inp[i].ew) = Len(inp[i].adj) /\ Len(inp[i].vw) = cnt(i)
                  /\ \A k \in 1..cnt(i) : inp[i].xadj[k] <= inp[i].xadj[k + 1]
      okshape == \A i \in 1..ns : fields(i) /\ dist(i) /\ ids(i) /\ shape(i)
      number == [v \in G.V |-> LET i == G.own[v] + 1 IN (IF local THEN 0 ELSE inp[1].dist[i]) + (CHOOSE k \in DOMAIN inp[i].ids : inp[i].ids[k] = v) - 1]
      row(i, k) == LET s == (inp[i].xadj[k] + 1)..inp[i].xadj[k + 1]
                       nw == NbrWeights(G, In.t, inp[i].ids[k])
                       want == IF local THEN {u \in DOMAIN nw : G.own[u] = i - 1} ELSE DOMAIN nw
                   IN /\ Cardinality(s) = Cardinality(want)
                      /\ {<<inp[i].adj[x], inp[i].ew[x] * 1000>> : x \in s} = {<<number[u], nw[u]>> : u \in want}
      vw(i) == \A k \in 1..cnt(i) : inp[i].vw[k] * 1000 = G.w[inp[i].ids[k]]
  IN F("arguments", \A i \in 1..ns : fields(i)) \cup F("distribution", okshape)
     \cup (IF okshape THEN F("adjacency", \A i \in 1..ns : \A k \in 1..cnt(i) : row(i, k)) \cup F("vertexweights", \A i \in 1..ns : vw(i)) ELSE {})

(* -------------------------------------------------------------------- Zoltan *)
(* inp[r]: what process r-1 of the larger set passed *)
Fewest(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
ZoltanBad(G, In, inp) ==
  LET nl == Len(inp)
      GL == OnLarge(G, nl, In.map)
      mine(r) == Owned(GL, r - 1)
      anyhy == G.hy
      fields(r) == inp[r].kind = "zoltan" /\ inp[r].n = nl /\ inp[r].r = r - 1 /\ inp[r].np = In.np /\ inp[r].lp = 1 /\ inp[r].tol = In.tol
                   /\ inp[r].method = (IF anyhy THEN "HYPERGRAPH" ELSE "GRAPH")
      ids(r) == Len(inp[r].ids) = Cardinality(mine(r)) /\ Ran(inp[r].ids) = mine(r) /\ Len(inp[r].vw) = Len(inp[r].ids)
                /\ Len(inp[r].lids) = Len(inp[r].ids)
                /\ Len(inp[r].adj) = Len(inp[r].ids) /\ {inp[r].adj[k].g : k \in DOMAIN inp[r].adj} = mine(r)
      ok == \A r \in 1..nl : fields(r) /\ ids(r)
      row(r, a) == LET inc == {e \in G.E[In.t] : IF G.hy THEN a.g \in Pins(e) ELSE e.p[1] = a.g}
                   IN IF anyhy THEN Len(a.e) = Cardinality(inc) /\ Ran(a.e) = {e.id : e \in inc}
                      ELSE /\ Len(a.e) = Cardinality(inc)
                           /\ \A x \in {<<e.p[2], GL.own[e.p[2]], e.w>> : e \in inc} :
                                Fewest([j \in DOMAIN a.e |-> <<a.e[j], a.ow[j], a.w[j]>>], x) = Cardinality({e \in inc : <<e.p[2], GL.own[e.p[2]], e.w>> = x})
      held(r) == {e \in G.E[In.t] : Pins(e) \cap mine(r) # {}}
      ew(r) == anyhy => Len(inp[r].ew) = Cardinality(held(r)) /\ Ran(inp[r].ew) = {<<e.id, e.w>> : e \in held(r)}
      vw(r) == \A k \in DOMAIN inp[r].ids : inp[r].vw[k] = G.w[inp[r].ids[k]]
  IN F("arguments", \A r \in 1..nl : fields(r)) \cup F("distribution", ok)
     \cup (IF ok THEN F("adjacency", \A r \in 1..nl : \A k \in DOMAIN inp[r].adj : row(r, inp[r].adj[k])) \cup F("vertexweights", \A r \in 1..nl : vw(r))
                      \cup F("edgeweights", \A r \in 1..nl : ew(r)) ELSE {})
==============================================================================
