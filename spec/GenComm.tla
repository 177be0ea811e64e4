------------------------------- MODULE GenComm -------------------------------
(* Every small pattern of messages, and every small division of the processes,   *)
(* written out to be replayed into the code.                                      *)
EXTENDS Comm, SequencesExt, Json
CONSTANTS NP,       \* processes
          Phases,   \* in a row
          Colours,  \* of a division (0: none is made)
          Keys,
          Values    \* of a contribution, 1..Values - 1 and their negations
VARIABLES sends, ck, val, k
Rs == 0..(NP - 1)
Init == /\ sends \in [1..Phases -> [Rs -> SUBSET Rs]]
        /\ ck \in IF Colours = 0 THEN {<<>>} ELSE [Rs -> (0..(Colours - 1)) \X (0..(Keys - 1))]
        /\ val \in IF Values = 0 THEN {<<>>} ELSE [Rs -> (1 - Values)..(Values - 1)]
        /\ k = 0
Spec == Init /\ [][UNCHANGED <<sends, ck, val, k>>]_<<sends, ck, val, k>>
list(f) == [i \in 1..NP |-> f[i - 1]]
Written == PrintT("CASE " \o ToJson([n |-> NP,
  sends |-> [p \in 1..Phases |-> [i \in 1..NP |-> SetToSeq(sends[p][i - 1])]],
  ck |-> IF ck = <<>> THEN <<>> ELSE list(ck), val |-> IF val = <<>> THEN <<>> ELSE list(val)]))
=============================================================================
