------------------------------- MODULE System -------------------------------
(* The library as a state machine: every operation on a graph as an action, from   *)
(* a few fixed graphs, in every order, up to a number of operations.  TLC checks    *)
(* here what the properties say of every reachable state, and writes every history  *)
(* out to be replayed into the code (lib/gens.py), where Trace.tla judges each step. *)
EXTENDS NGraph, SequencesExt, Json
CONSTANTS NP,     \* processes
          HY,     \* hypergraph?
          Depth,  \* operations
          Ops     \* names of the operations to use
VARIABLES G, saved, hist
vars == <<G, saved, hist>>
NV == 3
E1 == IF HY THEN {[id |-> 1, w |-> 500, p |-> <<1, 2>>], [id |-> 2, w |-> 1000, p |-> <<1, 2, 3>>]}
      ELSE {[id |-> 1, w |-> 500, p |-> <<1, 2>>], [id |-> 2, w |-> 1000, p |-> <<3, 1>>]}
E2 == {[id |-> 3, w |-> 1500, p |-> <<2, 3>>]}
EX == {[id |-> 4, w |-> 2000, p |-> <<1, 3>>]}
G0 == [EmptyG(NP) EXCEPT !.hy = HY, !.nt = 2, !.V = 1..NV, !.own = [v \in 1..NV |-> IF v = 1 THEN 0 ELSE NP - 1], !.w = [v \in 1..NV |-> 1000 * v], !.E = <<E1, E2>>]
None == [none |-> TRUE]
Init == G = G0 /\ saved = None /\ hist = <<>>
Did(x) == Len(hist) < Depth /\ x.k \in Ops /\ hist' = Append(hist, x)
Mig == \E plan \in [G.V -> Ranks(G)] : Did([k |-> "mig", plan |-> plan]) /\ G' = Migrate(G, plan) /\ UNCHANGED saved
SetW == Did([k |-> "setw"]) /\ G' = SetWeights(G, [v \in G.V |-> G.w[v] + 10]) /\ UNCHANGED saved
SetEW == \E t \in Types(G) : Did([k |-> "setew", t |-> t]) /\ G' = SetEdgeWeights(G, t, 7000) /\ UNCHANGED saved
Coords == Did([k |-> "coords"]) /\ G' = SetCoords(G, [v \in G.V |-> <<v, Len(hist), 0>>]) /\ UNCHANGED saved
RemoveE == \E t \in Types(G) : Did([k |-> "rm", t |-> t]) /\ G' = RemoveEdges(G, t) /\ UNCHANGED saved
Add == G.nt < 3 /\ G.nt > 0 /\ Did([k |-> "add"]) /\ G' = [AddEdges(G, EX) EXCEPT !.gx = FALSE] /\ UNCHANGED saved
SetOrig == Did([k |-> "setorig"]) /\ G' = WithOO(G) /\ UNCHANGED saved
ResetOwn == Did([k |-> "resetown"]) /\ G' = ResetOwners(G) /\ UNCHANGED saved
Save == Did([k |-> "save"]) /\ saved' = G /\ UNCHANGED G
Load == saved # None /\ Did([k |-> "load"]) /\ G' = [saved EXCEPT !.hasoo = FALSE, !.oo = <<>>, !.gw = TRUE, !.gx = FALSE] /\ UNCHANGED saved
GetPart == G.hasoo /\ Did([k |-> "getpart"]) /\ UNCHANGED <<G, saved>>
Next == Mig \/ SetW \/ SetEW \/ Coords \/ RemoveE \/ Add \/ SetOrig \/ ResetOwn \/ Save \/ Load \/ GetPart
        \/ (Len(hist) = Depth /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------- what the properties say, of every state *)
R == Ranks(G)
TypeOK == /\ G.V = 1..NV /\ \A v \in G.V : G.own[v] \in R
          /\ Len(G.E) = G.nt /\ (G.hasoo => DOMAIN G.oo = G.V)
(* C01, C05: every vertex in exactly one share *)
OneShare == \A v \in G.V : Cardinality({r \in R : v \in Owned(G, r)}) = 1
(* C02: every edge is held exactly where it has to be, and somewhere *)
EdgesPlaced == \A t \in Types(G) : \A e \in G.E[t] :
  LET at == {r \in R : e \in Held(G, t, r)}
  IN at # {} /\ IF G.hy THEN at = Residence(G, e) ELSE at = {G.own[e.p[1]]}
(* C03: ghosts are exactly the vertices of others that an edge held here names, and their owners hold that edge too (hypergraph) *)
GhostsRight == \A r \in R : Ghosts(G, r) \cap Owned(G, r) = {} /\
  \A v \in Ghosts(G, r) : \E t \in Types(G) : \E e \in Held(G, t, r) : v \in Pins(e) /\ (G.hy => e \in Held(G, t, G.own[v]))
(* C03: the counts of all processes together, each edge counted where its lowest resident process is *)
CountsAdd == /\ SumOver(R, [r \in R |-> Cardinality(Owned(G, r))]) = GlobalVtxs(G)
             /\ \A t \in Types(G) : SumOver(R, [r \in R |-> Cardinality({e \in Held(G, t, r) : ~G.hy \/ SetMin(Residence(G, e)) = r})]) = GlobalEdges(G, t)
(* C04: the maps of all processes tell, once for each vertex, where it is now *)
MapTotal == G.hasoo => /\ \A v \in G.V : Cardinality({r \in R : v \in DOMAIN PartitionMap(G, r)}) = 1
                       /\ \A r \in R : \A v \in DOMAIN PartitionMap(G, r) : PartitionMap(G, r)[v] = G.own[v]
(* C06: cut exactly when pins are owned by several *)
CutRight == \A t \in Types(G) : \A e \in G.E[t] : IsCut(G, e) <=> \E u, v \in Pins(e) : G.own[u] # G.own[v]
Written == Len(hist) = Depth => PrintT("CASE " \o ToJson([n |-> NP, hy |-> HY, nv |-> NV, own |-> G0.own, ends |-> G.own, E |-> [t \in 1..2 |-> SetToSeq(G0.E[t])], plans |-> hist]))
View == <<G, saved, Len(hist)>>
(* C01, C02: no action but those that say so changes the vertices, their weight or the edges *)
Kept == [][/\ G'.V = G.V
           /\ (Last(hist').k \notin {"setw", "load"} => G'.w = G.w)
           /\ (Last(hist').k \notin {"rm", "add", "setew", "load"} => G'.E = G.E)
           /\ (Last(hist').k \notin {"mig", "load"} => G'.own = G.own)]_<<G, saved, hist>>
=============================================================================
