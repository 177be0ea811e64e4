------------------------------ MODULE PCUPhase ------------------------------
(* A communication phase of the message layer, process by process: the barrier that *)
(* opens it, synchronous sends that end when they are received, the loop of probes,  *)
(* and the barrier a process begins once its sends are over and which, once done,    *)
(* ends the phase.  Messages of different pairs travel freely; messages do not say   *)
(* which phase they belong to.  A barrier is taken as PCUColl shows it to be: nobody  *)
(* sees it done before everybody has begun it.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rs,      \* processes
          P,       \* phases
          Self     \* may a process send to itself?
Symmetric == Permutations(Rs)
VARIABLES pc, ph, begun, dest, net, got
vars == <<pc, ph, begun, dest, net, got>>
\* pc: "open" waits for the barrier that opens the phase, "pack", "probe", "sends" (the probe
\* failed: are my sends over?), "bar" (is the barrier done?), "done"
\* begun: how many barriers the process has begun; dest: per phase, whom it sent to
\* net: messages <<from, to, phase, arrived>>; got: per phase, from whom

Init == /\ pc = [r \in Rs |-> "open"] /\ ph = [r \in Rs |-> 1] /\ begun = [r \in Rs |-> 1]
        /\ dest = [r \in Rs |-> [p \in 1..P |-> {}]] /\ got = [r \in Rs |-> [p \in 1..P |-> <<>>]] /\ net = {}
BarrierDone(r) == \A q \in Rs : begun[q] >= begun[r]
Opened(r) == /\ pc[r] = "open" /\ BarrierDone(r)
             /\ pc' = [pc EXCEPT ![r] = "pack"] /\ UNCHANGED <<ph, begun, dest, net, got>>
Pack(r) == /\ pc[r] = "pack"
           /\ \E D \in SUBSET (IF Self THEN Rs ELSE Rs \ {r}) :
                /\ dest' = [dest EXCEPT ![r][ph[r]] = D]
                /\ net' = net \cup {<<r, q, ph[r], FALSE>> : q \in D}
           /\ pc' = [pc EXCEPT ![r] = "probe"] /\ UNCHANGED <<ph, begun, got>>
\* a pair's messages arrive in order
Arrive == \E m \in net : /\ ~m[4] /\ ~\E x \in net : x[1] = m[1] /\ x[2] = m[2] /\ x[3] < m[3] /\ ~x[4]
                         /\ net' = (net \ {m}) \cup {<<m[1], m[2], m[3], TRUE>>}
                         /\ UNCHANGED <<pc, ph, begun, dest, got>>
Here(r) == {m \in net : m[2] = r /\ m[4]}
\* any source, but a pair's oldest
Take(r) == /\ pc[r] = "probe"
           /\ \E m \in Here(r) : /\ \A x \in Here(r) : x[1] = m[1] => x[3] >= m[3]
                                 /\ net' = net \ {m}
                                 /\ got' = [got EXCEPT ![r][ph[r]] = Append(@, <<m[1], m[3]>>)]
           /\ UNCHANGED <<pc, ph, begun, dest>>
ProbeFails(r) == /\ pc[r] = "probe" /\ Here(r) = {} /\ pc' = [pc EXCEPT ![r] = "sends"]
                 /\ UNCHANGED <<ph, begun, dest, net, got>>
InRecv(r) == begun[r] = 2 * ph[r]     \* has begun the phase's closing barrier
Sends(r) == /\ pc[r] = "sends"
            /\ begun' = IF ~InRecv(r) /\ ~\E m \in net : m[1] = r THEN [begun EXCEPT ![r] = @ + 1] ELSE begun
            /\ pc' = [pc EXCEPT ![r] = "bar"] /\ UNCHANGED <<ph, dest, net, got>>
Bar(r) == /\ pc[r] = "bar"
          /\ IF InRecv(r) /\ BarrierDone(r)
             THEN IF ph[r] = P THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<ph, begun>>
                  ELSE /\ ph' = [ph EXCEPT ![r] = @ + 1] /\ begun' = [begun EXCEPT ![r] = @ + 1]
                       /\ pc' = [pc EXCEPT ![r] = "open"]
             ELSE pc' = [pc EXCEPT ![r] = "probe"] /\ UNCHANGED <<ph, begun>>
          /\ UNCHANGED <<dest, net, got>>
Over == (\A r \in Rs : pc[r] = "done") /\ UNCHANGED vars
Proc(r) == Opened(r) \/ Pack(r) \/ Take(r) \/ ProbeFails(r) \/ Sends(r) \/ Bar(r)
Next == (\E r \in Rs : Proc(r)) \/ Arrive \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ \A r \in Rs : WF_vars(Proc(r))

\* a message is received in the phase it was sent in
InPhase == \A r \in Rs : \A p \in 1..P : \A i \in DOMAIN got[r][p] : got[r][p][i][2] = p
\* once at most
Once == \A r \in Rs : \A p \in 1..P : \A i, j \in DOMAIN got[r][p] : i # j => got[r][p][i] # got[r][p][j]
\* who has left a phase has received all that was sent to it in that phase
Left(r, p) == ph[r] > p \/ pc[r] = "done"
All == \A r \in Rs : \A p \in 1..P : Left(r, p) => \A q \in Rs : (r \in dest[q][p]) <=> (\E i \in DOMAIN got[r][p] : got[r][p][i] = <<q, p>>)
\* and so has everybody it knows to be in the same phase sent
Empty == (\A r \in Rs : pc[r] = "done") => net = {}
Ends == <>(\A r \in Rs : pc[r] = "done")
=============================================================================
