-------------------------------- MODULE Trim ---------------------------------
(* How a later target is kept from overloading what an earlier one completed:   *)
(* senders say how much each of them would bring to a receiver, the receiver      *)
(* shares what room it has, and senders keep of their plans, in the order of       *)
(* selection, what fits their share.  Messages come in any order; several          *)
(* completed targets, one of them in vertices and one in edges.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,        \* the senders; the receiver is not among them
          Edges,    \* edges of weight 1
          Items,    \* the longest plan of a sender
          MaxW      \* the heaviest vertex
\* an item: a vertex with its weight and the edges the receiver would have to take with it
ItemSet == [w : 1..MaxW, es : SUBSET Edges]
VARIABLES plan, room, asked, granted, left, kept, pc
vars == <<plan, room, asked, granted, left, kept, pc>>
RECURSIVE SumW(_)
SumW(p) == IF p = <<>> THEN 0 ELSE Head(p).w + SumW(Tail(p))
Of(p) == UNION {p[i].es : i \in DOMAIN p}
Sizes(p) == <<SumW(p), Cardinality(Of(p))>>
Plans == UNION {[1..k -> ItemSet] : k \in 0..Items}
Init == /\ plan \in [S -> Plans]
        /\ room \in (-1..3) \X (-1..3)
        /\ asked = {} /\ granted = [s \in S |-> <<-1, -1>>] /\ left = room /\ kept = [s \in S |-> <<>>]
        /\ pc = [s \in S |-> "ask"]
Ask(s) == /\ pc[s] = "ask"
          /\ asked' = IF plan[s] = <<>> THEN asked ELSE asked \cup {s}
          /\ pc' = [pc EXCEPT ![s] = IF plan[s] = <<>> THEN "done" ELSE "wait"]
          /\ UNCHANGED <<plan, room, granted, left, kept>>
\* the receiver answers when all have asked (the phase is over), the smallest first in the first target
Waiting == {s \in S : pc[s] = "wait"}
AllAsked == \A s \in S : pc[s] # "ask"
Grant(s) ==
  /\ AllAsked /\ s \in Waiting
  /\ \A q \in Waiting : Sizes(plan[s])[1] <= Sizes(plan[q])[1]
  /\ LET want == Sizes(plan[s])
         fits == \A i \in 1..2 : want[i] <= left[i]
         none == \E i \in 1..2 : room[i] < 0                       \* already over a limit: nothing
         g == IF none \/ (left[2] <= 0 /\ \E q \in S : pc[q] = "cut") THEN <<0, 0>>      \* the code closes when the last target's room is used up
              ELSE IF fits THEN want ELSE left
     IN /\ granted' = [granted EXCEPT ![s] = g]
        /\ left' = [i \in 1..2 |-> left[i] - g[i]]
  /\ pc' = [pc EXCEPT ![s] = "cut"] /\ UNCHANGED <<plan, room, asked, kept>>
RECURSIVE Fit(_, _, _)
Fit(p, k, g) == IF p = <<>> THEN k
                ELSE LET k2 == Append(k, Head(p)) IN Fit(Tail(p), IF Sizes(k2)[1] <= g[1] /\ Sizes(k2)[2] <= g[2] THEN k2 ELSE k, g)
Cut(s) == /\ pc[s] = "cut" /\ Waiting = {} /\ kept' = [kept EXCEPT ![s] = Fit(plan[s], <<>>, granted[s])]
          /\ pc' = [pc EXCEPT ![s] = "done"] /\ UNCHANGED <<plan, room, asked, granted, left>>
Over == (\A s \in S : pc[s] = "done") /\ UNCHANGED vars
Next == (\E s \in S : Ask(s) \/ Grant(s) \/ Cut(s)) \/ Over
Spec == Init /\ [][Next]_vars

RECURSIVE SumK(_, _)
SumK(X, f) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + SumK(X \ {x}, f)
Came == [s \in S |-> Sizes(kept[s])]
Ended == \A s \in S : pc[s] = "done"
Max0(x) == IF x < 0 THEN 0 ELSE x
\* no limit is passed by what came, or nothing came to a receiver past a limit
Kept == Ended => /\ SumK(S, [s \in S |-> Came[s][1]]) <= Max0(room[1])
                 /\ Cardinality(UNION {Of(kept[s]) : s \in S}) <= Max0(room[2])
\* a plan that alone fits is not cut when nobody else sends
Useful == Ended => \A s \in S : ((\A q \in S \ {s} : plan[q] = <<>>) /\ room[1] >= Sizes(plan[s])[1] /\ room[2] >= Sizes(plan[s])[2]) => kept[s] = plan[s]
SubPlan == \A s \in S : Len(kept[s]) <= Len(plan[s])
Symmetric == Permutations(Edges) \cup Permutations(S)
=============================================================================
