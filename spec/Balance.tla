------------------------------ MODULE Balance -------------------------------
(* Loads, diffusion steps, weight movement, selection order and metrics as    *)
(* functions of the abstract graph.  Weights are thousandths; the weights the  *)
(* scripts use are multiples of Q thousandths so that products stay small.     *)
EXTENDS NGraph
Q == 250

(* ------------------------------------------------------------------- loads *)
Load(G, d, gh, r) ==
  IF d = -1 THEN SumOver(Owned(G, r) \cup (IF gh THEN Ghosts(G, r) ELSE {}), G.w)
  ELSE LET es == Held(G, d + 1, r) IN SumOver(es, [e \in es |-> e.w])
Loads(G, d, gh) == [r \in Ranks(G) |-> Load(G, d, gh, r)]
MaxLoad(G, L) == SetMax({L[r] : r \in Ranks(G)})
MinLoad(G, L) == SetMin({L[r] : r \in Ranks(G)})
TotalLoad(G, L) == SumOver(Ranks(G), L)
(* imbalance strictly below tol/1000 *)
WithinTol(G, d, gh, tol) == LET L == Loads(G, d, gh) IN (MaxLoad(G, L) \div Q) * G.n * 1000 < tol * (TotalLoad(G, L) \div Q)

(* -------------------------------------------------------------- boundaries *)
Cut(G, t, r) == {e \in Held(G, t, r) : IsCut(G, e)}
Neighbours(G, t, r) == (UNION {Residence(G, e) : e \in Cut(G, t, r)}) \ {r}
Side(G, t, r, q) == LET es == {e \in Cut(G, t, r) : q \in Residence(G, e)} IN SumOver(es, [e \in es |-> e.w])
SideTotal(G, t, r) == LET es == Cut(G, t, r) IN SumOver(es, [e \in es |-> e.w])
(* an upper bound, within 2/1000, of difference * share of the boundary * step factor *)
Target(G, t, L, r, q, sf) ==
  LET diff == L[r] - L[q]
      x == ((diff \div Q + 1) * (Side(G, t, r, q) \div Q)) \div (SideTotal(G, t, r) \div Q) + 1   \* in Q/1000
  IN ((x * sf) \div 1000 + 1) * Q

(* --------------------------------------------------------- diffusion steps *)
RECURSIVE Steps(_, _, _)
Steps(G, plans, K) == IF K = 0 THEN <<G>> ELSE LET s == Steps(G, plans, K - 1) IN Append(s, Migrate(s[K], plans[K]))

From(G, plan, r) == {v \in DOMAIN plan : G.own[v] = r}
Dests(G, plan, r) == {plan[v] : v \in From(G, plan, r)}
DirOK(G, plan, sides, d, gh) ==
  LET L == Loads(G, d, gh)
  IN \A r \in Ranks(G) : \A q \in Dests(G, plan, r) : q \in Neighbours(G, sides, r) /\ L[q] < L[r]

(* What a set of vertices brings to q: their weight, or the weight of the edges q does not hold. *)
Gain(G, d, X, r, q) ==
  IF d = -1 THEN SumOver(X, G.w)
  ELSE LET es == {e \in Held(G, d + 1, r) : (IF G.hy THEN Pins(e) \cap X # {} /\ q \notin Residence(G, e) ELSE e.p[1] \in X)}
       IN SumOver(es, [e \in es |-> e.w])
(* The amount for q was not reached before the last boundary edge whose vertices were chosen.  A vertex that *)
(* several boundary edges could choose may have been counted for another process; those are left out when    *)
(* more than one process is targeted.                                                                        *)
AmountOK(G, plan, sides, d, gh, sf) ==
  LET L == Loads(G, d, gh)
  IN \A r \in Ranks(G) :
       LET cut == Cut(G, 1, r)
           poss == {q \in Neighbours(G, sides, r) : L[q] < L[r]}
           once(v) == Cardinality({e \in cut : v \in Pins(e)}) = 1
       IN \A q \in Dests(G, plan, r) :
            LET all == {v \in From(G, plan, r) : plan[v] = q}
                X == IF Cardinality(poss) = 1 THEN all ELSE {v \in all : once(v)}
            IN q \in poss => \/ X = {}
                             \/ \E e \in cut : Gain(G, d, X \ Pins(e), r, q) < Target(G, sides, L, r, q, sf)

(* Which vertices a step chooses, and what for.  The boundary of a process: its vertices on edges of the first *)
(* type that cross to others.  A step moves only those; as no target was completed before, all of such an edge's *)
(* vertices; and only to processes reached from the vertex through the boundary.                                 *)
CutEdgesOf(G, v) == {e \in G.E[1] : IsCut(G, e) /\ (IF G.hy THEN v \in Pins(e) ELSE e.p[1] = v)}
Own1(G, e, r) == IF G.hy THEN {u \in Pins(e) : G.own[u] = r} ELSE {e.p[1]}
BoundaryOK(G, plan) == \A v \in DOMAIN plan : CutEdgesOf(G, v) # {}
WholeOK(G, plan) == \A v \in DOMAIN plan : \E e \in CutEdgesOf(G, v) : Own1(G, e, G.own[v]) \subseteq DOMAIN plan
RECURSIVE Spread(_, _, _)
Spread(es, B, S) ==   \* from S along the edges, through the vertices B
  LET T == TLCEval(S \cup {v \in B : \E e \in es : v \in Pins(e) /\ Pins(e) \cap S # {}}) IN IF T = S THEN S ELSE Spread(es, B, T)
ReachOK(G, plan) ==
  \A r \in Ranks(G) :
    LET mine == From(G, plan, r)
        es == IF mine = {} THEN {} ELSE {e \in G.E[1] : \E u \in Pins(e) : G.own[u] = r}
        B == {u \in Owned(G, r) : \E e \in es : u \in Pins(e) /\ IsCut(G, e)}
    IN \A q \in Dests(G, plan, r) :
         LET near == Spread(es, B, {u \in G.V : G.own[u] = q}) IN \A v \in mine : plan[v] = q => v \in near
(* The vertices of a boundary edge are chosen together only where they have, in edges of the first type, fewer *)
(* away from the destination than limit times those on it; which of them were chosen together is not known.    *)
GrowthOK(G, plan, limit) ==
  limit > 0 => \A v \in DOMAIN plan :
    LET r == G.own[v]
        q == plan[v]
        of(u) == EdgesOf(G, 1, r, u)
        val(u) == LET on == Cardinality({e \in of(u) : q \in Residence(G, e)}) IN 1000 * (Cardinality(of(u)) - on) - limit * on
    IN \E e \in CutEdgesOf(G, v) :
         LET X == Own1(G, e, r) \ {v} IN val(v) + SumOver(X, [u \in X |-> Min(0, val(u))]) < 0

(* imbalance of one state less than that of another *)
Imb(G, d, gh) == LET L == Loads(G, d, gh) IN <<MaxLoad(G, L) \div Q, TotalLoad(G, L) \div Q>>
LessImb(a, b) == a[1] * b[2] < b[1] * a[2]
AtMost(G, d, gh, tol) == LET x == Imb(G, d, gh) IN x[2] > 0 /\ x[1] * G.n * 1000 <= tol * x[2]

(* the last imbalance c after a, b: a run may call it stagnation unless c is the best of the three, and does when it is the worst *)
MayStagnate(H) == LET n == Len(H) IN n >= 3 /\ ~(LessImb(H[n], H[n - 1]) /\ LessImb(H[n], H[n - 2]))
MustStagnate(H) == LET n == Len(H) IN n >= 3 /\ LessImb(H[n - 1], H[n]) /\ LessImb(H[n - 2], H[n])

(* To whom a process may send: in hypergraphs on more than two processes only to neighbours that share no more *)
(* of the boundary than processes have on average when the target was begun (graph Z).                         *)
SideOK(G, Z, t, r, q) == ~G.hy \/ G.n = 2 \/ (Side(G, t, r, q) \div Q) * G.n <= SumOver(Ranks(Z), [x \in Ranks(Z) |-> SideTotal(Z, t, x)]) \div Q
SidesOK(G, Z, plan, t) == \A r \in Ranks(G) : \A q \in Dests(G, plan, r) : SideOK(G, Z, t, r, q)
(* While the first target is treated: some process has a lighter neighbour it may send to and a boundary edge   *)
(* with few of its vertices whose candidates for a destination, whichever is kept of those alike, include it.   *)
Reachable(G, r, T) ==
  \E e \in Cut(G, 1, r) :
    LET X == Own1(G, e, r)
        near == UNION {EdgesOf(G, 1, r, u) : u \in X}
        cnt(q) == Cardinality({f \in near : q \in Residence(G, f)})
        others == (UNION {Residence(G, f) : f \in near}) \ {r}
    IN Cardinality(X) \in 1..11 /\ \E q \in T \cap others : {p \in others : cnt(p) = cnt(q)} \subseteq T
CanMove(G, Z, t, d, gh) ==
  LET L == Loads(G, d, gh)
  IN \E r \in Ranks(G) :
       LET T == {q \in Neighbours(G, t, r) : L[q] < L[r] /\ Side(G, t, r, q) > 0 /\ SideOK(G, Z, t, r, q)}
       IN T # {} /\ Reachable(G, r, T)
(* the same for weight: the amount moved over an edge is a tenth of its last own vertex's weight, divided, in whole units *)
WCanMove(G, t, sf) ==
  LET L == Loads(G, -1, FALSE)
  IN \E r \in Ranks(G) : \E q \in Neighbours(G, t, r) : L[q] < L[r] /\ Target(G, t, L, r, q, sf) >= 2500
       /\ \E e \in Cut(G, 1, r) : q \in Residence(G, e)
            /\ LET own == {i \in DOMAIN e.p : G.own[e.p[i]] = r}
                   mine == e.p[SetMax(own)]
                   m == Cardinality({u \in Pins(e) : G.own[u] # r})
               IN G.w[mine] >= 10500 * m

(* Loads of targets already treated stay within their recorded limits. *)
Limit(G, p, gh) ==
  LET L == Loads(G, p.d, gh) IN Max(MaxLoad(G, L), ((p.tol * (TotalLoad(G, L) \div Q)) \div (1000 * G.n) + 1) * Q)
RECURSIVE Limits(_, _, _, _, _)
\* limits known before step k: those of the priorities below the one being treated
Limits(seq, st, k, pri, gh) ==
  IF k = 0 THEN <<>>
  ELSE LET before == Limits(seq, st, k - 1, pri, gh)
           have == Len(before)
       IN IF st[k] - 1 > have THEN before \o [i \in 1..(st[k] - 1 - have) |-> Limit(seq[k], pri[have + i], gh)] ELSE before
LimitsOK(seq, st, K, pri, gh) ==
  \A k \in 1..K :
    LET lim == Limits(seq, st, k, pri, gh)
    IN \A i \in 1..(st[k] - 1) : \A r \in Ranks(seq[k]) :
         LET a == Load(seq[k + 1], pri[i].d, FALSE, r)
             b == Load(seq[k], pri[i].d, FALSE, r)
         IN a <= Max(b, lim[i])

(* ---------------------------------------------------------- moving weight *)
(* plan: sequence over processes of sequences <<u, v, w>> *)
PlanSum(plan, v) == SumSeq([i \in DOMAIN plan |-> IF plan[i][2] = v THEN plan[i][3] ELSE 0]) - SumSeq([i \in DOMAIN plan |-> IF plan[i][1] = v THEN plan[i][3] ELSE 0])
MoveWeight(G, plans) == [G EXCEPT !.w = [v \in G.V |-> G.w[v] + SumSeq([r \in DOMAIN plans |-> PlanSum(plans[r], v)])], !.gw = TRUE]
SamePlan(p, in) ==
  LET keys == {<<in[i][1], in[i][2]>> : i \in DOMAIN in}
      tot(k) == SumSeq([i \in DOMAIN in |-> IF <<in[i][1], in[i][2]>> = k THEN in[i][3] ELSE 0])
  IN Len(p) = Cardinality(keys) /\ Ran(p) = {<<k[1], k[2], tot(k)>> : k \in keys}
(* net movement from u to v so far, by <<u, v>> *)
AddMoves(moved, plans) ==
  LET all == UNION {{<<x[1], x[2]>> : x \in Ran(plans[r])} : r \in DOMAIN plans}
      keys == all \cup {<<k[2], k[1]>> : k \in all} \cup DOMAIN moved
      sum(u, v) == SumSeq([r \in DOMAIN plans |-> SumSeq([i \in DOMAIN plans[r] |-> IF plans[r][i][1] = u /\ plans[r][i][2] = v THEN plans[r][i][3] ELSE 0])])
  IN [k \in keys |-> (IF k \in DOMAIN moved THEN moved[k] ELSE 0) + sum(k[1], k[2]) - sum(k[2], k[1])]
(* every process's map has, for its own vertices, exactly the net movement to every other vertex *)
WeightMapOK(G, moved, out) ==
  \A r \in DOMAIN out :
    LET m == out[r].m
        exp == {k \in DOMAIN moved : G.own[k[1]] = r - 1}
    IN /\ Len(m) = Cardinality({<<m[i][1], m[i][2]>> : i \in DOMAIN m})
       /\ {<<m[i][1], m[i][2], m[i][3]>> : i \in DOMAIN m} = {<<k[1], k[2], moved[k]>> : k \in exp}
RECURSIVE WSteps(_, _, _, _)
WSteps(G, k, K, out) == IF k > K THEN <<G>> ELSE <<G>> \o WSteps(MoveWeight(G, [r \in DOMAIN out |-> out[r].steps[k].plan]), k + 1, K, out)
WDirOK(G, plan, r, t) ==
  LET L == Loads(G, -1, FALSE)
  IN \A x \in Ran(plan) : x[3] >= 0 /\ G.own[x[1]] = r
       /\ LET q == G.own[x[2]] IN x[3] > 0 => q \in Neighbours(G, t, r) /\ L[q] < L[r]
WAmountOK(G, plan, r, t, sf) ==
  LET L == Loads(G, -1, FALSE)
      sent(q) == SumSeq([i \in DOMAIN plan |-> IF G.own[plan[i][2]] = q THEN plan[i][3] ELSE 0])
      from(u) == SumSeq([i \in DOMAIN plan |-> IF plan[i][1] = u THEN plan[i][3] ELSE 0])
  IN /\ \A q \in {G.own[x[2]] : x \in Ran(plan)} : sent(q) > 0 => q \in Neighbours(G, t, r) /\ sent(q) <= Target(G, t, L, r, q, sf)
     /\ \A u \in {x[1] : x \in Ran(plan)} : from(u) <= G.w[u]
(* after a run the map keeps the movements out of each vertex; they account for every change *)
WAccount(G, GK, out) ==
  LET all == UNION {Ran(out[r].m) : r \in DOMAIN out}
      net(v) == SumOver({x \in all : x[2] = v}, [x \in all |-> x[3]]) - SumOver({x \in all : x[1] = v}, [x \in all |-> x[3]])
  IN /\ \A r \in DOMAIN out : \A i \in DOMAIN out[r].m : out[r].m[i][3] > 0 /\ out[r].m[i][1] \in Owned(G, r - 1)
     /\ \A v \in G.V : GK.w[v] = G.w[v] + net(v)

(* ------------------------------------------------- the part weight balancer *)
(* The graph of the processes: one vertex for each, weighing its load, and an edge to each neighbour. *)
PartName(r) == ToString(r)
PartGraph(G, d, gh, t) ==
  LET L == Loads(G, d, gh)
      V == {PartName(r) : r \in Ranks(G)}
      own == [v \in V |-> CHOOSE r \in Ranks(G) : PartName(r) = v]
  IN [EmptyG(G.n) EXCEPT !.nt = 1, !.V = V, !.own = own, !.w = [v \in V |-> L[own[v]]],
        !.E = <<UNION {{[id |-> <<r, q>>, w |-> 1000, p |-> <<PartName(r), PartName(q)>>] : q \in Neighbours(G, t, r)} : r \in Ranks(G)}>>]
(* what the moves of weight (a sequence over steps of sequences over processes) mean r should send to q *)
PartPlan(moves, r, q) ==
  LET sum(a, b) == SumSeq([k \in DOMAIN moves |-> SumSeq([i \in DOMAIN moves[k][a + 1] |->
                     LET x == moves[k][a + 1][i] IN IF x[1] = PartName(a) /\ x[2] = PartName(b) THEN x[3] ELSE 0])])
  IN Max(0, sum(r, q) - sum(q, r))
(* an upper bound of the share of the rest that one step may send *)
PartTarget(G, t, rest, r, q) ==
  (((rest \div Q + 1) * (Side(G, t, r, q) \div Q)) \div (SideTotal(G, t, r) \div Q) + 1) * Q
PartSideOK(G, Z, t, r, q) == ~G.hy \/ (Side(G, t, r, q) \div Q) * G.n <= SumOver(Ranks(Z), [x \in Ranks(Z) |-> SideTotal(Z, t, x)]) \div Q
(* rest[r][q]: what is still to be sent *)
PartTo(G, Z, t, rest, r) == {q \in Neighbours(G, t, r) : rest[r][q] > 0 /\ Side(G, t, r, q) > 0 /\ PartSideOK(G, Z, t, r, q)}
PartDirOK(G, Z, plan, t, rest) == \A r \in Ranks(G) : Dests(G, plan, r) \subseteq PartTo(G, Z, t, rest, r)
PartAmountOK(G, plan, t, d, rest) ==
  \A r \in Ranks(G) :
    LET cut == Cut(G, 1, r)
        poss == {q \in Neighbours(G, t, r) : rest[r][q] > 0}
        once(v) == Cardinality({e \in cut : v \in Pins(e)}) = 1
    IN \A q \in Dests(G, plan, r) \cap poss :
         LET all == {v \in From(G, plan, r) : plan[v] = q}
             X == IF Cardinality(poss) = 1 THEN all ELSE {v \in all : once(v)}
         IN X = {} \/ \E e \in cut : Gain(G, d, X \ Pins(e), r, q) < PartTarget(G, t, rest[r][q], r, q)
PartLeft(G, plan, d, rest) ==
  TLCEval([r \in Ranks(G) |-> [q \in Ranks(G) |-> IF q \in Dests(G, plan, r) THEN rest[r][q] - Gain(G, d, {v \in From(G, plan, r) : plan[v] = q}, r, q) ELSE rest[r][q]]])
RECURSIVE PartRest(_, _, _, _, _, _)
\* what is still to be sent after m steps of the target begun after step b
PartRest(seq, plans, b, m, d, rest) == IF m = 0 THEN rest ELSE PartLeft(seq[b + m], plans[b + m], d, PartRest(seq, plans, b, m - 1, d, rest))
RECURSIVE PartGraphs(_, _, _)
PartGraphs(G, mv, M) == IF M = 0 THEN <<G>> ELSE LET s == PartGraphs(G, mv, M - 1) IN Append(s, TLCEval(MoveWeight(s[M], mv[M])))
PartCanMove(G, Z, t, rest) ==
  \E r \in Ranks(G) : LET T == PartTo(G, Z, t, rest, r) IN T # {} /\ Reachable(G, r, T)

(* --------------------------------------------------------- selection order *)
RECURSIVE Bfs(_, _, _, _)
\* dist: function on a set of edges reached so far; grows level by level through shared owned vertices
Bfs(E, adj, dist, d) ==
  LET front == {e \in DOMAIN dist : dist[e] = d}
      new == TLCEval((UNION {adj[e] : e \in front}) \ DOMAIN dist)
  IN IF new = {} THEN dist ELSE Bfs(E, adj, TLCEval(dist @@ [e \in new |-> d + 1]), d + 1)
RECURSIVE Closure(_, _)
Closure(adj, S) == LET T == TLCEval(S \cup UNION {adj[e] : e \in S}) IN IF T = S THEN S ELSE Closure(adj, T)
RECURSIVE Comps(_, _)
Comps(adj, S) == IF S = {} THEN {} ELSE LET C == Closure(adj, {CHOOSE e \in S : TRUE}) IN {C} \cup Comps(adj, S \ C)
QueueOrderOK(G, r, ids) ==
  LET E == Held(G, 1, r)
      mine == Owned(G, r)
      I == {e.id : e \in E}
      at == TLCEval([v \in mine |-> {f.id : f \in {f \in E : v \in Pins(f)}}])
      pins == TLCEval([x \in I |-> (CHOOSE e \in E : e.id = x).p])
      adj == TLCEval([x \in I |-> (UNION {at[v] : v \in Ran(pins[x]) \cap mine}) \ {x}])
      cut == TLCEval({e.id : e \in {e \in E : IsCut(G, e)}})
      d1 == TLCEval(Bfs(I, adj, [x \in cut |-> 0], 0))
      comps == TLCEval(Comps(adj, cut))
      far(C) == LET m == SetMax({d1[x] : x \in C}) IN {x \in C : d1[x] = m}
      d2 == TLCEval([C \in comps |-> Bfs(I, adj, [x \in far(C) |-> 0], 0)])
      comp == TLCEval([i \in DOMAIN ids |-> CHOOSE C \in comps : ids[i] \in C])
      n == Len(ids)
  IN \A i \in 1..(n - 1) :
       IF comp[i] = comp[i + 1] THEN d2[comp[i]][ids[i]] >= d2[comp[i]][ids[i + 1]]
       ELSE \A j \in (i + 1)..n : comp[j] # comp[i]

(* ---------------------------------------------------------------- metrics *)
NaN == -2000000001
(* printed values: thousandths, rounded *)
AvgOK(x, total, n) == x \in -1..20000000 /\ 2 * (x * n - total) <= n + 2 /\ 2 * (total - x * n) <= n + 2
ImbOK(x, mx, total, n, scale) ==   \* x/scale = mx / (total/n)
  IF total = 0 THEN x = NaN
  ELSE LET T == total \div Q
           M == mx \div Q
           a == x * T
           b == scale * M * n
       IN x \in -1..(scale * n + 1) /\ 2 * (a - b) <= T + 2 /\ 2 * (b - a) <= T + 2
(* components of a process's vertices, connected through edges of the first type *)
Parts(G, r) ==
  LET mine == Owned(G, r)
      es == IF G.nt = 0 THEN {} ELSE Held(G, 1, r)
      adj == TLCEval([v \in mine |-> UNION {Pins(e) \cap mine : e \in {e \in es : v \in Pins(e)}}])
  IN {Closure(adj, {v}) : v \in mine}
GhostsKnown(G) == G.n = 1 \/ (G.gw /\ ~G.gx)     \* the weights of the ghosts, and which there are
EvalBad(G, e) ==
  LET n == G.n
      R == Ranks(G)
      dis == [r \in R |-> 1000 * Max(0, Cardinality(Parts(G, r)) - 1)]
      nbr == [r \in R |-> IF G.nt = 0 THEN 0 ELSE 1000 * Cardinality(Neighbours(G, 1, r))]
      cut(t) == [r \in R |-> SideTotal(G, t, r)]
      four(name, x, L) ==
        (IF x[1] = MaxLoad(G, L) THEN {} ELSE {name \o " max"}) \cup (IF x[2] = MinLoad(G, L) THEN {} ELSE {name \o " min"})
        \cup (IF AvgOK(x[3], TotalLoad(G, L), n) THEN {} ELSE {name \o " avg"})
        \cup (IF ImbOK(x[4], MaxLoad(G, L), TotalLoad(G, L), n, 1000) THEN {} ELSE {name \o " imbalance"})
      two(name, x, L) == (IF x[1] = MaxLoad(G, L) THEN {} ELSE {name \o " max"}) \cup (IF x[2] = TotalLoad(G, L) THEN {} ELSE {name \o " total"})
  IN (IF e.ok = 1 THEN {} ELSE {"report"})
     \cup (IF e.empty = Cardinality({r \in R : Owned(G, r) = {}}) THEN {} ELSE {"empty parts"})
     \cup two("disconnected", e.dis, dis) \cup four("neighbours", e.nb, nbr)
     \cup four("vertices", e.lv, Loads(G, -1, FALSE)) \cup (IF GhostsKnown(G) THEN four("all vertices", e.tv, Loads(G, -1, TRUE)) ELSE {})
     \cup (IF Len(e.t) = G.nt THEN UNION {four("edges", e.t[t].e, Loads(G, t - 1, FALSE)) \cup two("cut", e.t[t].c, cut(t)) : t \in Types(G)} ELSE {"types"})
(* the printed status of a graph, as often as it is printed *)
StatsBad(G, s) ==
  LET edges == [t \in Types(G) |-> GlobalEdges(G, t)]
      pins == [t \in Types(G) |-> GlobalPins(G, t)]
      ok(x, v) == Len(x) > 0 /\ \A i \in DOMAIN x : x[i] = v
  IN IF s.ok = 1 /\ ok(s.hy, IF G.hy THEN 1 ELSE 0) /\ ok(s.v, GlobalVtxs(G)) /\ ok(s.e, edges) /\ (IF G.hy THEN ok(s.p, pins) ELSE s.p = <<>>)
     THEN {} ELSE {"status"}
ImbBad(G, out, gh) ==
  LET all == -1..(G.nt - 1)
      dims == IF gh /\ ~GhostsKnown(G) THEN 0..(G.nt - 1) ELSE all
      ok(r, d) == out[r].w[d + 2] = Load(G, d, gh, r - 1)
      imb(r, d) == LET L == Loads(G, d, gh) IN ImbOK(out[r].imb[d + 2], MaxLoad(G, L), TotalLoad(G, L), G.n, 1000)
      txt(d) == LET L == Loads(G, d, gh) IN ImbOK(out[1].txt[d + 2], MaxLoad(G, L), TotalLoad(G, L), G.n, 10000)
  IN (IF \A r \in DOMAIN out : \A d \in dims : ok(r, d) THEN {} ELSE {"load"})
     \cup (IF \A r \in DOMAIN out : \A d \in dims : imb(r, d) THEN {} ELSE {"imbalance"})
     \cup (IF Len(out[1].txt) = G.nt + 1 /\ \A d \in dims : txt(d) THEN {} ELSE {"imbalances"})
=============================================================================
