------------------------------- MODULE NGraph -------------------------------
(* The distributed graph of EnGPar as its users see it: one global graph and,  *)
(* for every vertex, the process that owns it.  Everything a process shows     *)
(* (its share of vertices and edges, its ghosts, residences, counts, ...) is a *)
(* function of that state; the operators below define those functions, and the *)
(* actions of the library as functions from state to state.                    *)
(*                                                                             *)
(* G = [n    |-> number of processes,                                          *)
(*      hy   |-> is it a hypergraph?  (otherwise a directed graph)             *)
(*      nt   |-> number of edge types,                                         *)
(*      V    |-> set of global vertex identifiers,                             *)
(*      own  |-> [V -> 0..n-1],   w |-> [V -> weight],                         *)
(*      hasc |-> does it have coordinates?,  c |-> [V -> <<x,y,z>>],           *)
(*      hasoo|-> are original owners recorded?, oo |-> [V -> 0..n-1],          *)
(*      E    |-> sequence over types of sets of [id, w, p], p the pins in      *)
(*               order (directed graph: <<source, target>>),                   *)
(*      gw   |-> do ghost weights still reflect the owners' weights?           *)
(*      gx   |-> may ghosts of a removed edge type still be listed? ]          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

Types(G) == 1..G.nt
Ranks(G) == 0..(G.n - 1)
EmptyG(n) == [n |-> n, hy |-> FALSE, nt |-> 0, V |-> {}, own |-> <<>>, w |-> <<>>, hasc |-> FALSE, c |-> <<>>,
              hasoo |-> FALSE, oo |-> <<>>, E |-> <<>>, gw |-> TRUE, gx |-> FALSE]

(* ---- what a process holds ------------------------------------------------ *)
Owned(G, r) == {v \in G.V : G.own[v] = r}
Pins(e) == Ran(e.p)
HoldsWith(hy, mine, e) == IF hy THEN Pins(e) \cap mine # {} ELSE e.p[1] \in mine
Held(G, t, r) == {e \in G.E[t] : HoldsWith(G.hy, Owned(G, r), e)}
Ghosts(G, r) == (UNION {UNION {Pins(e) : e \in Held(G, t, r)} : t \in Types(G)}) \ Owned(G, r)
Residence(G, e) == {G.own[v] : v \in Pins(e)}
IsCut(G, e) == Cardinality(Residence(G, e)) > 1
GlobalVtxs(G) == Cardinality(G.V)
GlobalEdges(G, t) == Cardinality(G.E[t])
GlobalPins(G, t) == SumOver(G.E[t], [e \in G.E[t] |-> Len(e.p)])
(* first and second adjacency of a process's vertices and edges *)
EdgesOf(G, t, r, v) == {e \in Held(G, t, r) : IF G.hy THEN v \in Pins(e) ELSE e.p[1] = v}

(* ---- actions ---------------------------------------------------------------- *)
WithOO(G) == IF G.hasoo THEN G ELSE [G EXCEPT !.hasoo = TRUE, !.oo = G.own]
ResetOwners(G) == [G EXCEPT !.hasoo = TRUE, !.oo = G.own]
(* plan: function from a subset of V to processes *)
Planned(G, plan, v) == IF v \in DOMAIN plan THEN plan[v] ELSE G.own[v]
Migrate(G, plan) == [WithOO(G) EXCEPT !.own = [v \in G.V |-> Planned(G, plan, v)], !.gw = TRUE, !.gx = FALSE]
SetWeights(G, m) == [G EXCEPT !.w = [v \in G.V |-> IF v \in DOMAIN m THEN m[v] ELSE G.w[v]], !.gw = FALSE]
SetCoords(G, m) == [G EXCEPT !.hasc = TRUE, !.c = m]
SetEdgeWeights(G, t, w) == [G EXCEPT !.E[t] = {[e EXCEPT !.w = w] : e \in G.E[t]}]
AddEdges(G, es) == [G EXCEPT !.nt = G.nt + 1, !.E = Append(G.E, es), !.gw = TRUE]
RemoveEdges(G, t) == IF t = G.nt THEN [G EXCEPT !.nt = G.nt - 1, !.E = SubSeq(G.E, 1, G.nt - 1), !.gx = TRUE]
                     ELSE [G EXCEPT !.E[t] = {}, !.gx = TRUE]
(* splitting: the graph on a small set of processes becomes one on a larger set; *)
(* map gives for each small process its number in the larger set                 *)
Renumber(G, n, map) == [G EXCEPT !.n = n, !.own = [v \in G.V |-> map[G.own[v] + 1]]]
(* ---- the partition returned to original owners ----------------------------- *)
PartitionMap(G, r) == [v \in {x \in G.V : G.oo[x] = r} |-> G.own[v]]
=============================================================================
