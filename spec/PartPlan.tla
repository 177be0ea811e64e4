------------------------------ MODULE PartPlan -------------------------------
(* Balancing by a plan between processes, as the part weight balancer does it:   *)
(* first weight is moved on a graph with one vertex for each process, all        *)
(* processes at once and each by the weights of the step before; then diffusion  *)
(* sends pieces (whole vertices) until what was planned is used up.              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N,          \* processes 0..N-1
          Line,       \* neighbours on a line (else all are neighbours)
          Total,      \* the whole load
          Steps,      \* the most steps of weight, and of diffusion
          Piece       \* the heaviest piece
P == 0..(N - 1)
Nb(p) == IF Line THEN {q \in P : q = p - 1 \/ q = p + 1} ELSE P \ {p}
VARIABLES load,       \* what each process has
          w,          \* the weights of the plan's graph
          net,        \* net[p][q]: moved from p to q less what came back
          rest,       \* what is still to be sent
          sent, phase, k
vars == <<load, w, net, rest, sent, phase, k>>
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Zero == [p \in P |-> [q \in P |-> 0]]
Loads == {f \in [P -> 0..Total] : Sum(P, f) = Total}
Init == load \in Loads /\ w = load /\ net = Zero /\ rest = Zero /\ sent = Zero /\ phase = "plan" /\ k = 0
\* the share of the difference for each of p's neighbours
Share(f, p, q) == IF q \in Nb(p) /\ f[q] < f[p] THEN (f[p] - f[q]) \div Cardinality(Nb(p)) ELSE 0
Out(a, p) == Sum(P, a[p])
In(a, p) == Sum(P, [q \in P |-> a[q][p]])
\* all f with f[q] in 0..m[q] for the q of P below n, and in R[q] likewise
RECURSIVE Upto(_, _), Product(_, _)
Upto(n, m) == IF n = 0 THEN {<<>>} ELSE {f @@ ((n - 1) :> x) : f \in Upto(n - 1, m), x \in 0..m[n - 1]}
Product(n, R) == IF n = 0 THEN {<<>>} ELSE {f @@ ((n - 1) :> x) : f \in Product(n - 1, R), x \in R[n - 1]}
Rows(p) == Upto(N, [q \in P |-> Share(w, p, q)])
Weigh == /\ phase = "plan" /\ k < Steps
         /\ \E a \in Product(N, [p \in P |-> Rows(p)]) :
              /\ \E p, q \in P : a[p][q] > 0
              /\ w' = [p \in P |-> w[p] - Out(a, p) + In(a, p)]
              /\ net' = [p \in P |-> [q \in P |-> net[p][q] + a[p][q] - a[q][p]]]
         /\ k' = k + 1 /\ UNCHANGED <<load, rest, sent, phase>>
Begin == /\ phase = "plan" /\ phase' = "send" /\ k' = 0
         /\ rest' = [p \in P |-> [q \in P |-> IF net[p][q] > 0 THEN net[p][q] ELSE 0]]
         /\ UNCHANGED <<load, w, net, sent>>
\* what p sends to q in a step: pieces as long as less than the rest is selected
Sendings(p, q) == IF rest[p][q] > 0 THEN 0..(rest[p][q] + Piece - 1) ELSE {0}
\* one process at a time (they are independent: each has its own row of the rest)
SendOne(p) == /\ phase = "send" /\ k < Steps * N
              /\ \E r \in Product(N, [q \in P |-> IF q \in Nb(p) THEN Sendings(p, q) ELSE {0}]) :
                   /\ Sum(Nb(p), r) <= load[p] /\ \E q \in Nb(p) : r[q] > 0
                   /\ load' = [x \in P |-> IF x = p THEN load[p] - Sum(Nb(p), r) ELSE IF x \in Nb(p) THEN load[x] + r[x] ELSE load[x]]
                   /\ rest' = [rest EXCEPT ![p] = [q \in P |-> IF q \in Nb(p) THEN @[q] - r[q] ELSE @[q]]]
                   /\ sent' = [sent EXCEPT ![p] = [q \in P |-> IF q \in Nb(p) THEN @[q] + r[q] ELSE @[q]]]
              /\ k' = k + 1 /\ UNCHANGED <<w, net, phase>>
Over == phase = "send" /\ (k = Steps * N \/ \A p, q \in P : rest[p][q] <= 0 \/ load[p] = 0) /\ UNCHANGED vars
Next == Weigh \/ Begin \/ (\E p \in P : SendOne(p)) \/ Over
Spec == Init /\ [][Next]_vars

Conserved == Sum(P, load) = Total /\ Sum(P, w) = Total
NeverNegative == \A p \in P : load[p] >= 0 /\ w[p] >= 0
OneWay == \A p, q \in P : net[p][q] = -net[q][p] /\ (rest[p][q] > 0 => net[p][q] > 0)
\* the plan accounts for every change of the plan's weights
Accounts == phase = "plan" => \A p \in P : w[p] = load[p] - Sum(P, net[p])
\* no step makes the heaviest heavier
Calmer == [][phase = "plan" /\ phase' = "plan" => \A p \in P : w'[p] <= w[p] \/ \E q \in Nb(p) : w[q] > w[p]]_vars
\* at most one piece more than planned goes to anybody, and nothing to those nothing is planned for
Bounded == \A p, q \in P : LET plan == IF net[p][q] > 0 THEN net[p][q] ELSE 0
                           IN phase = "send" => /\ rest[p][q] = plan - sent[p][q]
                                                /\ sent[p][q] <= (IF plan = 0 THEN 0 ELSE plan + Piece - 1)
\* carried out to the end, the loads are those of the plan, but for a piece with each neighbour
Reached == (phase = "send" /\ \A p, q \in P : rest[p][q] <= 0) =>
             \A p \in P : load[p] - w[p] <= Cardinality(Nb(p)) * (Piece - 1) /\ w[p] - load[p] <= Cardinality(Nb(p)) * (Piece - 1)
=============================================================================
