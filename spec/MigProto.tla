------------------------------ MODULE MigProto ------------------------------
(* The migration algorithm, process by process, as the library runs it: ask     *)
(* the owners of ghosts where those go, send vertices, send edges to every       *)
(* process that will own one of their vertices, throw away repeated hyperedges,   *)
(* build anew.  Every process works from what it knows; the checked claim is      *)
(* that together they compute NGraph!Migrate, for every small graph and plan.     *)
(* Phases are atomic here (PCUPhase justifies that); which message arrives first  *)
(* is left open: the invariants demand that all messages about a thing agree.     *)
EXTENDS NGraph
CONSTANTS NP, NV, ME, NT     \* processes, vertices, edges in all, edge types

Vs == 1..NV
Rs == 0..(NP - 1)
Sets(S, k) == {X \in SUBSET S : Cardinality(X) <= k}
HyperPins == {<<a>> : a \in Vs} \cup {<<a, b>> : a \in Vs, b \in Vs} \cup {<<a, b, c>> : a \in Vs, b \in Vs, c \in Vs}
Sorted(p) == \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
PinSets(hy) == IF hy THEN {p \in HyperPins : Sorted(p)} ELSE {p \in {<<a, b>> : a \in Vs, b \in Vs} : p[1] # p[2]}

VARIABLES G,      \* the distributed graph before
          plan,   \* destination of some of the vertices
          pc,     \* phase
          loc,    \* what each process knows: [own: ghosts' owners]
          net,    \* messages of the phase: a set of [to, m]
          new     \* what each process has collected for its new share
vars == <<G, plan, pc, loc, net, new>>

Knows(r) == [v \in Ghosts(G, r) |-> G.own[v]]
\* what a process's plan says, after the entries that stay have been dropped
Sent(r) == {v \in Owned(G, r) : v \in DOMAIN plan /\ plan[v] # r}
MyPlan(r) == [v \in Sent(r) |-> plan[v]]
Init ==
  /\ \E hy \in BOOLEAN :
     \E own \in [Vs -> Rs] :
     \E es \in Sets((1..NT) \X PinSets(hy), ME) :
       G = [n |-> NP, hy |-> hy, nt |-> NT, V |-> Vs, own |-> own, w |-> [v \in Vs |-> v], hasc |-> FALSE, c |-> <<>>, hasoo |-> TRUE, oo |-> own,
            E |-> [t \in 1..NT |-> {[id |-> e[2], w |-> 1, p |-> e[2]] : e \in {x \in es : x[1] = t}}], gw |-> TRUE, gx |-> FALSE]
  /\ \E S \in SUBSET Vs : plan \in [S -> Rs]
  /\ pc = "ask"
  /\ loc = [r \in Rs |-> Knows(r)]
  /\ net = {}
  /\ new = [r \in Rs |-> [V |-> {}, E |-> {}, gho |-> {}]]

(* every process asks the owner of each of its ghosts *)
Ask == /\ pc = "ask" /\ pc' = "answer"
       /\ net' = UNION {{[to |-> loc[r][g], m |-> <<r, g>>] : g \in DOMAIN loc[r]} : r \in Rs}
       /\ UNCHANGED <<G, plan, loc, new>>
Answer == /\ pc = "answer" /\ pc' = "learn"
          /\ net' = UNION {{[to |-> x.m[1], m |-> <<x.m[2], MyPlan(x.to)[x.m[2]]>>] : x \in {x \in net : x.m[2] \in DOMAIN MyPlan(x.to)}}}
          /\ UNCHANGED <<G, plan, loc, new>>
Learn == /\ pc = "learn" /\ pc' = "keep"
         /\ loc' = [r \in Rs |-> [v \in DOMAIN loc[r] |-> LET got == {x.m[2] : x \in {x \in net : x.to = r /\ x.m[1] = v}} IN IF got = {} THEN loc[r][v] ELSE CHOOSE d \in got : TRUE]]
         /\ net' = {}
         /\ UNCHANGED <<G, plan, new>>
\* where a vertex goes, as far as process r can tell
Tells(r, v) == IF v \in DOMAIN MyPlan(r) THEN MyPlan(r)[v] ELSE IF G.own[v] = r THEN r ELSE loc[r][v]
(* what stays: vertices not sent, edges none of whose pins (whose source) is sent *)
Keep == /\ pc = "keep" /\ pc' = "send"
        /\ new' = [r \in Rs |->
             LET stays == UNION {{[t |-> t, e |-> e] : e \in {e \in Held(G, t, r) : IF G.hy THEN Pins(e) \cap Sent(r) = {} ELSE e.p[1] \notin Sent(r)}} : t \in Types(G)}
             IN [V |-> Owned(G, r) \ Sent(r), E |-> stays,
                 gho |-> {x \in UNION {{<<v, Tells(r, v)>> : v \in Pins(s.e)} : s \in stays} : x[2] # r}]]
        /\ UNCHANGED <<G, plan, loc, net>>
Vertices == /\ pc = "send" /\ pc' = "edges"
            /\ net' = {}
            /\ new' = [r \in Rs |-> [new[r] EXCEPT !.V = @ \cup {v \in Vs : \E q \in Rs : v \in Sent(q) /\ MyPlan(q)[v] = r}]]
            /\ UNCHANGED <<G, plan, loc>>
(* the edges next to a vertex that is sent go to every process that will own one of their vertices *)
Affected(r, t) == {e \in Held(G, t, r) : IF G.hy THEN Pins(e) \cap Sent(r) # {} ELSE e.p[1] \in Sent(r)}
Goes(r, e) == IF G.hy THEN {Tells(r, v) : v \in Pins(e)} ELSE {MyPlan(r)[e.p[1]]}
Edges == /\ pc = "edges" /\ pc' = "receive"
         /\ net' = UNION {UNION {{[to |-> q, m |-> <<t, e, {<<v, Tells(r, v)>> : v \in Pins(e)}>>] : q \in Goes(r, e)} : e \in Affected(r, t)} : r \in Rs, t \in Types(G)}
         /\ UNCHANGED <<G, plan, loc, new>>
(* a hyperedge already there is thrown away, with what it says about owners *)
Receive == /\ pc = "receive" /\ pc' = "built"
           /\ new' = [r \in Rs |->
                LET in == {x \in net : x.to = r}
                    fresh == {x \in in : ~G.hy \/ [t |-> x.m[1], e |-> x.m[2]] \notin new[r].E}
                IN [new[r] EXCEPT !.E = @ \cup {[t |-> x.m[1], e |-> x.m[2]] : x \in fresh},
                                  !.gho = @ \cup {y \in UNION {x.m[3] : x \in fresh} : y[2] # r}]]
           /\ UNCHANGED <<G, plan, loc, net>>
Done == pc = "built" /\ UNCHANGED vars
Next == Ask \/ Answer \/ Learn \/ Keep \/ Vertices \/ Edges \/ Receive \/ Done
Spec == Init /\ [][Next]_vars

G2 == Migrate(G, [v \in DOMAIN plan |-> plan[v]])
After == pc \in {"keep", "send", "edges", "receive", "built"}
(* every process knows where each of its ghosts goes *)
Informed == After => \A r \in Rs : \A v \in DOMAIN loc[r] : loc[r][v] = G2.own[v]
(* messages about an owner agree, whatever order they arrive in *)
OneAnswer == (pc = "learn" => \A x \in net : \A y \in net : x.to = y.to /\ x.m[1] = y.m[1] => x.m[2] = y.m[2])
OneOwnerSaid == pc \in {"send", "edges", "receive", "built"} => \A r \in Rs : \A x \in new[r].gho : x[2] = G2.own[x[1]]
(* no directed edge arrives twice or at a process that keeps it *)
NoSecond == (pc = "receive" /\ ~G.hy) => \A x \in net : [t |-> x.m[1], e |-> x.m[2]] \notin new[x.to].E
(* together: exactly the view of the migrated graph *)
Refines == pc = "built" => \A r \in Rs :
  /\ new[r].V = Owned(G2, r)
  /\ \A t \in Types(G2) : {x.e : x \in {x \in new[r].E : x.t = t}} = Held(G2, t, r)
  /\ {x[1] : x \in new[r].gho} = Ghosts(G2, r)
  /\ \A x \in new[r].gho : x[2] = G2.own[x[1]]
=============================================================================
