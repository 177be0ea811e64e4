-------------------------------- MODULE Talk ---------------------------------
(* What the balancing routines say about their runs, against what they did.    *)
(* S: the messages in order, [k, d, n, b, imb, why].  seq: the states before    *)
(* and after every step; st[k]: the priority step k belongs to.                 *)
EXTENDS Balance

Is(S, k) == LET P(m) == m.k = k IN SelectSeq(S, P)
At(S, k) == {i \in DOMAIN S : S[i].k = k}
\* printed imbalances: of vertices, then of every edge type, ten thousandths
ImbsOK(G, x, gh) ==
  /\ Len(x) = G.nt + 1
  /\ \A d \in (IF gh /\ ~GhostsKnown(G) THEN 0..(G.nt - 1) ELSE -1..(G.nt - 1)) :
       LET L == Loads(G, d, gh) IN ImbOK(x[d + 2], MaxLoad(G, L), TotalLoad(G, L), G.n, 10000)
(* one priority: messages M from its start to its end, the states Z it went through *)
RoughlyEq(x, y) == LET d == IF x > y THEN x - y ELSE y - x IN d <= y \div 100000 + 2
PartBad(M, Z, plans, p, in, gh, known, before, lastly) ==
  LET m == Len(Z) - 1
      done == M[Len(M)]
      extra == Len(Is(M, "step")) - m           \* a last attempt that migrated nothing
      H == [i \in DOMAIN Z |-> Imb(Z[i], p.d, gh)]
      why == done.why
      moved(j) == IF j <= m THEN Cardinality(DOMAIN plans[j]) ELSE 0
      migs == Is(M, "mig")
      trims == Is(M, "trim")
      ok(name, c) == IF c THEN {} ELSE {name}
  IN ok("start", M[1].d = p.d /\ ImbsOK(Z[1], M[1].imb, gh))
     \cup ok("side", LET x == Is(M, "side")
                           tot == SumOver(Ranks(Z[1]), [r \in Ranks(Z[1]) |-> SideTotal(Z[1], in.sides + 1, r)])
                       IN IF in.verb >= 2 THEN Len(x) = 1 /\ RoughlyEq(x[1].n, tot \div Z[1].n) ELSE x = <<>>)
     \cup ok("steps", done.k = "done" /\ done.d = p.d /\ done.n = m)
     \cup ok("imbalances", IF in.verb >= 1
          THEN extra \in {0, 1} /\ \A j \in 1..(m + extra) : ImbsOK(Z[IF j <= m THEN j + 1 ELSE m + 1], Is(M, "step")[j].imb, FALSE)
          ELSE Is(M, "step") = <<>>)
     \cup ok("migrated", IF in.verb >= 2 THEN Len(migs) = m + extra /\ \A j \in DOMAIN migs : migs[j].n = moved(j) ELSE migs = <<>>)
     \cup ok("trimmed", IF in.verb >= 2 /\ before > 0
          THEN Len(trims) = m + extra /\ \A j \in DOMAIN trims : trims[j].n >= trims[j].b /\ trims[j].b = moved(j)
          ELSE trims = <<>>)
     \cup ok("reason", in.verb >= 2 =>
          CASE why = "tolerance"  -> known => AtMost(Z[m + 1], p.d, gh, p.tol)
            [] why = "max"        -> m = in.itt \/ lastly
            [] why = "nothing"    -> extra = 1
            [] why = "stagnation" -> known => MayStagnate(H)
            [] OTHER -> FALSE)
     \cup ok("reason", in.verb >= 2 /\ why # "tolerance" /\ known => why = "max" \/ ~WithinTol(Z[m + 1], p.d, gh, p.tol))
     \cup ok("nothing", in.verb >= 2 => (extra = 1 <=> why = "nothing"))
     \cup ok("stagnation", known => \A j \in 1..m : ~MustStagnate(SubSeq(H, 1, j)))

TalkBad(G, S, seq, st, plans, K, in, gh) ==
  IF G.n = 1 THEN (IF [i \in DOMAIN S |-> S[i].k] = <<"serial">> THEN {} ELSE {"serial"})
  ELSE IF in.verb < 0 THEN (IF S = <<>> THEN {} ELSE {"silence"})
  ELSE
  LET starts == At(S, "start")
      nS == Cardinality(starts)
      pos(i) == CHOOSE x \in starts : Cardinality({y \in starts : y <= x}) = i
      last(i) == IF i = nS THEN Len(S) ELSE pos(i + 1) - 1
      upto(i) == Cardinality({k \in 1..K : st[k] <= i})
      M(i) == LET x == SubSeq(S, pos(i), last(i))
                  P(m) == m.k \notin {"total", "other"} IN SelectSeq(x, P)
      Z(i) == SubSeq(seq, upto(i - 1) + 1, upto(i) + 1)
      shape == /\ nS >= 1 /\ nS <= Len(in.pri) /\ Cardinality(At(S, "done")) = nS
               /\ \A k \in 1..K : st[k] \in 1..nS
               /\ \A i \in 1..nS : M(i)[Len(M(i))].k = "done"
      known(i) == gh => \A j \in DOMAIN Z(i) : GhostsKnown(Z(i)[j])
  IN (IF shape THEN UNION {PartBad(M(i), Z(i), SubSeq(plans, upto(i - 1) + 1, upto(i)), in.pri[i], in, gh, known(i), i - 1, upto(i) = in.it) : i \in 1..nS} ELSE {"shape"})
     \cup (IF shape => (nS = Len(in.pri) \/ upto(nS) = in.it) /\ \A i \in 1..(nS - 1) : upto(i) < in.it THEN {} ELSE {"priorities"})
     \cup (LET t == Is(S, "total") IN IF Len(t) = 1 /\ t[1].n = K THEN {} ELSE {"total"})

(* At the third level every process tells, for every attempt, its boundary with each neighbour, the loads around it and *)
(* the amounts it wants to send.  T: these, process by process; Rest(i, k): what a part weight plan leaves to be sent   *)
(* after k steps of priority i.                                                                                        *)
SameMap(x, f) == /\ Len(x) = Cardinality(DOMAIN f) /\ {x[i][1] : i \in DOMAIN x} = DOMAIN f
                 /\ \A i \in DOMAIN x : RoughlyEq(x[i][2], f[x[i][1]])
\* amount * side / total * factor
Share(amount, side, total, sf) ==
  LET a == (amount \div Q) * (side \div Q)
      T == total \div Q
  IN ((a \div T) * sf + ((a % T) * sf) \div T) \div (1000 \div Q)
\* a load that is at a recorded limit, or may be
LimitLow(G, p, gh) == LET L == Loads(G, p.d, gh) IN Max(MaxLoad(G, L), ((p.tol * (TotalLoad(G, L) \div Q)) \div (1000 * G.n)) * Q)
LevelsBad(T, S, seq, st, K, in, gh, Rest(_, _)) ==
  LET n == seq[1].n
      t == in.sides + 1
      P(m) == m.k \in {"start", "step"}
      M == SelectSeq(S, P)
      at == {x \in DOMAIN M : M[x].k = "step"}
      A == Cardinality(at)
      pos(j) == CHOOSE x \in at : Cardinality({y \in at : y <= x}) = j
      pri == [j \in 1..A |-> Cardinality({y \in 1..pos(j) : M[y].k = "start"})]
      nth(j) == Cardinality({i \in 1..j : pri[i] = pri[j]})
      before(i) == Cardinality({k \in 1..K : st[k] < i})
      upto(i) == Cardinality({k \in 1..K : st[k] <= i})
      lens(x) == \A r \in 1..n : Len(x[r]) = A
      sidesOK(j) == LET Z == seq[before(pri[j]) + nth(j)] IN
        \A r \in Ranks(Z) : SameMap(T.s[r + 1][j], [q \in Neighbours(Z, t, r) |-> Side(Z, t, r, q)])
      weightsOK(j) == LET Z == seq[before(pri[j]) + nth(j)]
                          L == Loads(Z, in.pri[pri[j]].d, gh) IN
        \A r \in Ranks(Z) : SameMap(T.w[r + 1][j], [q \in {q \in Ranks(Z) : r \in Neighbours(Z, t, q) \/ (~Z.hy /\ q \in Neighbours(Z, t, r))} |-> L[q]])
      targetsOK(j) ==
        LET i == pri[j]
            k0 == before(i)
            Z == seq[k0 + nth(j)]
            L == Loads(Z, in.pri[i].d, gh)
            mayBlock(q) == \E h \in 1..(i - 1) : Load(Z, in.pri[h].d, gh, q) >= LimitLow(seq[upto(h) + 1], in.pri[h], gh)
            block(q) == \E h \in 1..(i - 1) : Load(Z, in.pri[h].d, gh, q) >= Limit(seq[upto(h) + 1], in.pri[h], gh)
            R == IF in.pwb = 1 THEN Rest(i, nth(j) - 1) ELSE <<>>
            wants(r, q) == IF in.pwb = 1 THEN PartSideOK(Z, seq[k0 + 1], t, r, q) /\ R[r][q] > 0
                           ELSE SideOK(Z, seq[k0 + 1], t, r, q) /\ L[q] < L[r]
            amount(r, q) == Share(IF in.pwb = 1 THEN R[r][q] ELSE L[r] - L[q], Side(Z, t, r, q), SideTotal(Z, t, r), IF in.pwb = 1 THEN 1000 ELSE in.sf)
        IN \A r \in Ranks(Z) :
             LET x == T.t[r + 1][j]
                 told == {x[y][1] : y \in DOMAIN x}
                 near == Neighbours(Z, t, r)
             IN SideTotal(Z, t, r) > 0 =>
                  /\ Len(x) = Cardinality(told) /\ told \subseteq near
                  /\ \A q \in near : wants(r, q) /\ ~mayBlock(q) => q \in told
                  /\ \A y \in DOMAIN x : LET q == x[y][1] IN wants(r, q) /\ ~block(q) /\ RoughlyEq(x[y][2], amount(r, q))
      known == \A i \in 1..Len(in.pri) : in.pri[i].d + 1 <= seq[1].nt
      shape == \A j \in 1..A : pri[j] \in 1..Len(in.pri) /\ nth(j) <= upto(pri[j]) - before(pri[j]) + 1
      ghosts == gh => \A k \in DOMAIN seq : GhostsKnown(seq[k])
      ok(name, c) == IF c THEN {} ELSE {name}
  IN IF ~shape \/ ~known THEN {}
     ELSE IF ~(lens(T.s) /\ lens(T.w) /\ lens(T.t)) THEN {"attempts"}
     ELSE LET a == ok("sides", \A j \in 1..A : sidesOK(j)) \cup ok("loads", ghosts => \A j \in 1..A : weightsOK(j))
          IN IF a # {} THEN a ELSE ok("targets", ghosts => \A j \in 1..A : targetsOK(j))

(* the same of the weight balancer: no attempt is told of but those made, on the states seq *)
WLevelsBad(T, S, seq, K, in) ==
  LET n == seq[1].n
      t == in.t
      A == Len(Is(S, "step"))
      lens(x) == \A r \in 1..n : Len(x[r]) = A
      sidesOK(j) == \A r \in Ranks(seq[j]) : SameMap(T.s[r + 1][j], [q \in Neighbours(seq[j], t, r) |-> Side(seq[j], t, r, q)])
      weightsOK(j) == LET Z == seq[j]
                          L == Loads(Z, -1, FALSE) IN
        \A r \in Ranks(Z) : SameMap(T.w[r + 1][j], [q \in {q \in Ranks(Z) : r \in Neighbours(Z, t, q) \/ (~Z.hy /\ q \in Neighbours(Z, t, r))} |-> L[q]])
      targetsOK(j) == LET Z == seq[j]
                          L == Loads(Z, -1, FALSE) IN
        \A r \in Ranks(Z) : SideTotal(Z, t, r) > 0 =>
          SameMap(T.t[r + 1][j], [q \in {q \in Neighbours(Z, t, r) : L[q] < L[r]} |-> Share(L[r] - L[q], Side(Z, t, r, q), SideTotal(Z, t, r), in.sf)])
      whole == \A j \in DOMAIN seq : \A v \in seq[j].V : seq[j].w[v] % Q = 0
      ok(name, c) == IF c THEN {} ELSE {name}
  IN IF n = 1 \/ A \notin {K, K + 1} THEN {}
     ELSE IF ~(lens(T.s) /\ lens(T.w) /\ lens(T.t)) THEN {"attempts"}
     ELSE LET a == ok("sides", \A j \in 1..A : sidesOK(j)) \cup ok("loads", \A j \in 1..A : weightsOK(j))
          IN IF a # {} THEN a ELSE ok("targets", whole => \A j \in 1..A : targetsOK(j))

(* the weight balancer: seq the states before and after each of the K steps *)
WTalkBad(G, S, seq, K, in) ==
  IF G.n = 1 THEN (IF [i \in DOMAIN S |-> S[i].k] = <<"serial">> THEN {} ELSE {"serial"})
  ELSE IF in.verb < 0 THEN (IF S = <<>> THEN {} ELSE {"silence"})
  ELSE
  LET stp == Is(S, "step")
      wst == Is(S, "wstart")
      whole == Is(S, "whole")
      conv == Is(S, "conv")
      extra == Len(stp) - K
  IN (IF Len(wst) = 1 /\ ImbsOK(G, wst[1].imb, FALSE) THEN {} ELSE {"start"})
     \cup (IF in.verb < 1 THEN (IF stp = <<>> THEN {} ELSE {"imbalances"})
           ELSE IF extra \in {0, 1} /\ \A j \in DOMAIN stp : ImbsOK(seq[IF j <= K THEN j + 1 ELSE K + 1], stp[j].imb, FALSE) THEN {} ELSE {"imbalances"})
     \cup (IF Len(whole) + Len(conv) = 1 THEN {} ELSE {"end"})
     \cup (IF whole # <<>> THEN (IF whole[1].n = in.it /\ K = in.it THEN {} ELSE {"end"})
           ELSE IF conv # <<>> THEN (IF K < in.it /\ conv[1].n \in {K, K + 1} THEN {} ELSE {"end"}) ELSE {})
(* the times told, in microseconds: T of one balancing run of K steps in n processes *)
TimesBad(T, S, K, in, n) ==
  LET ok(name, c) == IF c THEN {} ELSE {name}
      sum(q) == SumSeq(q)
      share(x) == x[1] < 200000 /\ T.total[1] > 0 => LET y == (x[1] * 10000) \div T.total[1] IN x[2] \in (y - 1)..(y + 1)
      part(x, y) == \A i \in 1..3 : x[i] <= y
  IN IF n = 1 \/ in.verb < 0 THEN {}
     ELSE ok("told", Len(T.total) = 1 /\ Len(T.done) = Len(Is(S, "done")) /\ Len(T.step) = Len(Is(S, "step")) /\ Len(T.mig) = Len(Is(S, "mig"))
                     /\ (IF in.verb >= 2 THEN Len(T.took) = 1 /\ Len(T.plan) = 1 /\ Len(T.dist) = 1
                                              /\ \A q \in {T.mt, T.maxr, T.minr} : Len(q) = IF K > 0 THEN 1 ELSE 0
                         ELSE T.took = <<>> /\ T.plan = <<>> /\ T.dist = <<>> /\ T.mt = <<>> /\ T.maxr = <<>> /\ T.minr = <<>>))
       \cup (IF Len(T.total) # 1 THEN {} ELSE
              ok("span", (\A x \in Ran(T.done) \cup Ran(T.step) \cup Ran(T.mig) : 0 <= x /\ x <= T.total[1]) /\ sum(T.step) <= T.total[1]))
       \cup (IF Len(T.total) # 1 \/ Len(T.took) # 1 \/ Len(T.plan) # 1 \/ Len(T.dist) # 1 THEN {} ELSE
              ok("span", /\ T.took[1][1] <= T.total[1] /\ T.dist[1][1] <= T.plan[1][1] /\ T.plan[1][1] <= T.total[1]
                         /\ T.plan[1][1] >= sum(T.step))
              \cup ok("share", share(T.took[1]) /\ share(T.plan[1]) /\ share(T.dist[1]))
              \cup ok("migrations", sum(T.mig) <= T.took[1][1] /\ (K = 0 => T.took[1][1] = 0) /\ (K > 0 => T.took[1][1] > 0))
              \cup (IF Len(T.mt) # 1 \/ Len(T.maxr) # 1 \/ Len(T.minr) # 1 THEN {} ELSE
                     ok("migrations", T.mt[1][1] = T.took[1][1] /\ part(<<T.mt[1][2], T.mt[1][3], T.mt[1][4]>>, T.mt[1][1]))
                     \cup ok("ratios", /\ \A i \in 1..4 : 0 <= T.minr[1][i] /\ T.minr[1][i] <= T.maxr[1][i] /\ T.maxr[1][i] <= 1000000
                                       /\ part(T.maxr[1], T.maxr[1][4]) /\ part(T.minr[1], T.minr[1][4])
                                       /\ sum(SubSeq(T.maxr[1], 1, 3)) >= T.maxr[1][4] - 3 /\ sum(SubSeq(T.minr[1], 1, 3)) <= T.minr[1][4] + 3)))
=============================================================================
