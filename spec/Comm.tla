-------------------------------- MODULE Comm ---------------------------------
(* The message layer as its users see it: phases deliver everything once,      *)
(* collectives are exact functions of the contributions, and both refer to the  *)
(* members of the communicator each process has made active.                    *)
(*                                                                             *)
(* A communicator, as a process sees it, is the sequence of its members (ranks   *)
(* of the whole program).  act: [process -> members of its active communicator]  *)
EXTENDS NGraph

World(n) == [i \in 1..n |-> i - 1]
PosIn(M, r) == (CHOOSE i \in DOMAIN M : M[i] = r) - 1

(* dividing a communicator: members of the same colour, by key, then by rank; ck: <<colour, key>> by position *)
SplitOf(M, ck, r) ==
  LET c(x) == ck[x + 1][1]
      k(x) == ck[x + 1][2]
      S == {x \in Ran(M) : c(x) = c(r)}
      before(x, y) == k(x) < k(y) \/ (k(x) = k(y) /\ PosIn(M, x) < PosIn(M, y))
  IN IF c(r) < 0 THEN <<>>
     ELSE [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : before(y, x)}) = i - 1]

(* ------------------------------------------------------------------ phases *)
(* sends[r+1]: what r packed, <<to, id, len>> in order; rec: what it received, <<from, id, len, intact>> in order *)
PhaseOK(M, r, sends, rec, ordered) ==
  LET me == PosIn(M, r)
      froms == {rec[i][1] : i \in DOMAIN rec}
      got(q) == LET P(x) == x[1] = q IN SelectSeq(rec, P)
      put(q) == LET P(x) == x[1] = me IN SelectSeq(sends[M[q + 1] + 1], P)
      same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][2] = b[i][2] /\ a[i][3] = b[i][3] /\ a[i][4] = 1
  IN /\ froms \subseteq 0..(Len(M) - 1)
     /\ \A q \in 0..(Len(M) - 1) : same(got(q), put(q))
     /\ ordered => \A i \in 1..(Len(rec) - 1) : rec[i][1] <= rec[i + 1][1]

(* pk: the bytes packed, <<to, bytes>>, for each process something was packed for; rv: <<from, bytes>> of the messages received. *)
(* Packing adds what it is given: here a number, a length and the block (8 bytes more than the block, each time).              *)
SizesOK(M, r, sends, pkOf(_), rv, packs) ==
  LET me == PosIn(M, r)
      mine(to) == LET P(x) == x[1] = to IN SelectSeq(sends[r + 1], P)
      pk == pkOf(r)
  IN /\ {x[1] : x \in Ran(pk)} = {x[1] : x \in Ran(sends[r + 1])} /\ Cardinality(Ran(pk)) = Len(pk)
     /\ packs => \A x \in Ran(pk) : x[2] = SumSeq([i \in DOMAIN mine(x[1]) |-> 8 + mine(x[1])[i][3]])
     /\ \A x \in Ran(rv) : <<me, x[2]>> \in Ran(pkOf(M[x[1] + 1]))

(* ------------------------------------------------------------- collectives *)
(* numbers are <<h, l>>, standing for h * 10^6 + l with 0 <= l < 10^6 *)
Million == 1000000
SumN(s) == LET h == SumSeq([i \in DOMAIN s |-> s[i][1]])
               l == SumSeq([i \in DOMAIN s |-> s[i][2]])
           IN <<h + (l \div Million), l % Million>>
LessN(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MinN(s) == CHOOSE x \in Ran(s) : \A y \in Ran(s) : ~LessN(y, x)
MaxN(s) == CHOOSE x \in Ran(s) : \A y \in Ran(s) : ~LessN(x, y)
True(x) == x # <<0, 0>>
Reduce(f, s) ==
  CASE f = "add" -> SumN(s)
    [] f = "min" -> MinN(s)
    [] f = "max" -> MaxN(s)
    [] f = "or"  -> IF \E i \in DOMAIN s : True(s[i]) THEN <<0, 1>> ELSE <<0, 0>>
    [] f = "and" -> IF \A i \in DOMAIN s : True(s[i]) THEN <<0, 1>> ELSE <<0, 0>>
CollResult(f, M, v, r) ==
  LET n == Len(v[M[1] + 1])
      at(k, m) == [j \in 1..m |-> v[M[j] + 1][k]]
  IN [k \in 1..n |-> IF f = "ex" THEN SumN(at(k, PosIn(M, r))) ELSE Reduce(f, at(k, Len(M)))]
(* no one leaves a barrier before everyone of the communicator has come: a, b are times of a common clock *)
BarrierOK(M, out) == \A x \in Ran(M) : \A y \in Ran(M) : out[x + 1].a < out[y + 1].b
=============================================================================
