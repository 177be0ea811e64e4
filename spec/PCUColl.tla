------------------------------ MODULE PCUColl ------------------------------
(* The collective operations of the message layer: reduce and broadcast along a *)
(* binomial tree, prefix sums up and down, step by step, with messages that take  *)
(* any time and sends that end when they are received.  Several collectives run    *)
(* one after another, and processes may be in different ones.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,      \* processes
          Kinds   \* the collectives that run, in order: "all" or "scan"
KA == <<"all">>
KS == <<"scan">>
KAS == <<"all", "scan">>
KSA == <<"scan", "all">>
Rs == 0..(N - 1)
K == Len(Kinds)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Floor2(_)
Floor2(n) == IF n = 1 THEN 1 ELSE 2 * Floor2(n \div 2)          \* 1 << floor_log2
Ceil2(n) == IF Floor2(n) < n THEN 2 * Floor2(n) ELSE Floor2(n)   \* 1 << ceil_log2
Bit(b, r) == (r \div b) % 2 = 1                                   \* b & r for a power of two b
Xor(r, b) == IF Bit(b, r) THEN r - b ELSE r + b
RECURSIVE Low(_, _)
Low(b, r) == IF Bit(b, r) THEN b ELSE Low(2 * b, r)
Ones(r, m) == r % m = m - 1                                        \* (r & (m-1)) == m-1

Begin(p, r) == CASE p = "reduce" -> 1
                 [] p = "bcast" -> IF r = 0 THEN Ceil2(N) ELSE Low(1, r)
                 [] p = "up" -> 1
                 [] p = "down" -> Floor2(N)
End(p, r, b) == CASE p = "reduce" -> IF r = 0 THEN b >= N ELSE b > 1 /\ Bit(b \div 2, r)
                  [] p = "bcast" -> b = 0
                  [] p = "up" -> b = Floor2(N)
                  [] p = "down" -> b = 1
Shift(p, b) == IF p \in {"reduce", "up"} THEN 2 * b ELSE b \div 2
\* <<action, peer>>
Idle == <<"idle", -1>>
Act(p, r, b) ==
  CASE p = "reduce" -> IF Xor(r, b) >= N THEN Idle ELSE IF Bit(b, r) THEN <<"send", Xor(r, b)>> ELSE <<"recv", Xor(r, b)>>
    [] p = "bcast" -> IF Xor(r, b) >= N THEN Idle ELSE IF Bit(b, r) THEN <<"recv", Xor(r, b)>> ELSE <<"send", Xor(r, b)>>
    [] p = "up" -> IF Ones(r, 2 * b) /\ r - b >= 0 THEN <<"recv", r - b>>
                   ELSE IF r + b < N /\ Ones(r + b, 2 * b) THEN <<"send", r + b>> ELSE Idle
    [] p = "down" -> IF Ones(r, b) /\ r + b \div 2 < N THEN <<"send", r + b \div 2>>
                     ELSE IF r - b \div 2 >= 0 /\ Ones(r - b \div 2, b) THEN <<"recv", r - b \div 2>> ELSE Idle
First(k) == IF Kinds[k] = "all" THEN "reduce" ELSE "up"
Second(p) == IF p = "reduce" THEN "bcast" ELSE "down"

VARIABLES st,    \* per process: [k, p, b, d], d: how often each contribution is in its value
          net,   \* [from, to, d] in flight, oldest first per pair
          res    \* what each collective gave each process
vars == <<st, net, res>>

Mine(k, r) == [x \in {<<k, r>>} |-> 1]
Merge(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
\* begin a step (or find the pattern at its end): the messages sent by it
Sends(r, s) == IF ~End(s.p, r, s.b) /\ Act(s.p, r, s.b)[1] = "send" THEN <<[from |-> r, to |-> Act(s.p, r, s.b)[2], d |-> s.d]>> ELSE <<>>
Init == /\ st = [r \in Rs |-> [k |-> 1, p |-> First(1), b |-> Begin(First(1), r), d |-> Mine(1, r)]]
        /\ LET RECURSIVE all(_)
               all(r) == IF r = N THEN <<>> ELSE Sends(r, [p |-> First(1), b |-> Begin(First(1), r), d |-> Mine(1, r)]) \o all(r + 1)
           IN net = all(0)
        /\ res = [k \in 1..K |-> <<>>]
\* the pattern of process r is over: the next one, of this or the next collective
Next1(r, s) ==
  IF s.p = First(s.k) THEN LET p == Second(s.p) IN [s EXCEPT !.p = p, !.b = Begin(p, r)]
  ELSE IF s.k = K THEN [s EXCEPT !.p = "done"]
  ELSE [k |-> s.k + 1, p |-> First(s.k + 1), b |-> Begin(First(s.k + 1), r), d |-> Mine(s.k + 1, r)]
Turn(r) ==
  /\ st[r].p # "done" /\ End(st[r].p, r, st[r].b)
  /\ LET s2 == Next1(r, st[r]) IN
       /\ st' = [st EXCEPT ![r] = s2]
       /\ net' = IF s2.p = "done" THEN net ELSE net \o Sends(r, s2)
       /\ res' = IF s2.k # st[r].k \/ s2.p = "done" THEN [res EXCEPT ![st[r].k] = (r :> st[r].d) @@ @] ELSE res
InFlight(r, q) == \E i \in DOMAIN net : net[i].from = r /\ net[i].to = q
Oldest(q, r) == CHOOSE i \in DOMAIN net : net[i].from = q /\ net[i].to = r /\ \A j \in 1..(i - 1) : ~(net[j].from = q /\ net[j].to = r)
Without(i) == SubSeq(net, 1, i - 1) \o SubSeq(net, i + 1, Len(net))
Step(r) ==
  /\ st[r].p # "done" /\ ~End(st[r].p, r, st[r].b)
  /\ LET s == st[r]
         a == Act(s.p, r, s.b)
         on(d, rest) == LET s2 == [s EXCEPT !.b = Shift(s.p, s.b), !.d = d] IN st' = [st EXCEPT ![r] = s2] /\ net' = rest \o Sends(r, s2)
     IN CASE a[1] = "idle" -> on(s.d, net)
          [] a[1] = "send" -> ~InFlight(r, a[2]) /\ on(s.d, net)      \* ends when received
          [] a[1] = "recv" -> /\ InFlight(a[2], r)
                              /\ LET i == Oldest(a[2], r) IN on(IF s.p = "bcast" THEN net[i].d ELSE Merge(s.d, net[i].d), Without(i))
  /\ UNCHANGED res
Done == (\A r \in Rs : st[r].p = "done") /\ UNCHANGED vars
Next == (\E r \in Rs : Turn(r) \/ Step(r)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every contribution of that collective once, and nothing else *)
Exact == \A k \in 1..K : \A r \in DOMAIN res[k] :
           res[k][r] = IF Kinds[k] = "all" THEN [x \in {<<k, q>> : q \in Rs} |-> 1] ELSE [x \in {<<k, q>> : q \in 0..r} |-> 1]
Clean == (\A r \in Rs : st[r].p = "done") => net = <<>>
Ends == <>(\A r \in Rs : st[r].p = "done")
=============================================================================
