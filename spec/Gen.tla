--------------------------------- MODULE Gen ---------------------------------
(* Every small behaviour of the specification, written out to be replayed into   *)
(* the code: all graphs of the given size (vertices named so that owners do not    *)
(* decrease), and all sequences of migrations of the given length from them.       *)
EXTENDS NGraph, SequencesExt, Json
CONSTANTS NP,     \* processes
          NVs,    \* set of numbers of vertices
          NT,     \* edge types
          ME,     \* edges in all, at most
          HY,     \* hypergraph?
          Depth   \* migrations
PinLists(nv) == IF HY THEN SetToSeq({SetToSortSeq(S, LAMBDA a, b : a < b) : S \in (SUBSET (1..nv)) \ {{}}})
                ELSE SetToSeq({<<a, b>> : a \in 1..nv, b \in 1..nv} \ {<<a, a>> : a \in 1..nv})
\* multisets of at most ME of 1..m, as sequences that do not decrease
Multi(m) == {s \in UNION {[1..k -> 1..m] : k \in 0..ME} : \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}
VARIABLES G, hist, G0
Owns(nv) == {f \in [1..nv -> 0..(NP - 1)] : \A i \in 1..(nv - 1) : f[i] <= f[i + 1]}
Graphs(nv) ==
  LET P == PinLists(nv)
      m == Len(P)
      type(x) == ((x - 1) \div m) + 1
      pins(x) == P[((x - 1) % m) + 1]
  IN {[EmptyG(NP) EXCEPT !.hy = HY, !.nt = NT, !.V = 1..nv, !.own = o, !.w = [v \in 1..nv |-> 1000 * v],
                         !.E = [t \in 1..NT |-> {[id |-> i, w |-> 500 * i, p |-> pins(s[i])] : i \in {i \in DOMAIN s : type(s[i]) = t}}]]
        : o \in Owns(nv), s \in Multi(NT * m)}
Init == /\ G0 \in UNION {Graphs(nv) : nv \in NVs} /\ G = G0 /\ hist = <<>>
Next == \/ /\ Len(hist) < Depth
           /\ \E plan \in [G.V -> Ranks(G)] : G' = Migrate(G, plan) /\ hist' = Append(hist, plan)
           /\ UNCHANGED G0
        \/ Len(hist) = Depth /\ UNCHANGED <<G, hist, G0>>
Spec == Init /\ [][Next]_<<G, hist, G0>>
Written == Len(hist) = Depth =>
  PrintT("CASE " \o ToJson([n |-> NP, hy |-> HY, nv |-> Cardinality(G0.V), own |-> G0.own, ends |-> G.own,
                            E |-> [t \in 1..NT |-> SetToSeq(G0.E[t])], plans |-> hist]))
=============================================================================
