------------------------------- MODULE Trace --------------------------------
(* Trace validation: every event recorded from the real code is one action    *)
(* here.  The action computes the state the specification allows after the     *)
(* event, compares everything the processes showed with it, prints the names   *)
(* of the clauses that fail, with the properties they belong to, and goes on.   *)
EXTENDS Conform, Balance, Talk, Comm, Split, Picture, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* position in the trace
          G,      \* the abstract graph
          aux     \* files saved, where the graph came from, ...
vars == <<l, G, aux>>

NoAux == [saved |-> <<>>, hashes |-> <<>>, from |-> "", log |-> FALSE, tags |-> <<>>, shared |-> <<>>, adj |-> <<>>, moved |-> <<>>, movedok |-> TRUE,
          act |-> <<>>, comms |-> <<>>, pend |-> <<>>, ordered |-> TRUE, pcu |-> FALSE, ours |-> FALSE, memo |-> <<>>, dbg |-> <<>>, timers |-> <<>>]
E0 == Trace[l]
IsEvent(k) == l <= Len(Trace) /\ Trace[l].ev = k
In == E0.in
Out == E0.out
NR == Len(Out)
HasP == [r \in 1..NR |-> Out[r].p]     \* events whose report nests the projection

(* Which properties a failing clause of the projection belongs to. *)
Tag(c, S) == {c \o ":" \o s : s \in S}
Only(bad, S) == bad \cap S
ViewProps(kind, bad) ==
     Tag("C03", Only(bad, {"ghosts", "ghostowner", "ghostweight", "counts"})) \cup Tag("C04", Only(bad, {"orig"}))
  \cup Tag("C06", Only(bad, {"residence"}))
  \cup Tag("C05", Only(bad, {"local"}))
  \cup (IF kind \in {"balance", "split"} THEN Tag("C01", Only(bad, {"vertices", "weight", "coords"})) \cup Tag("C02", Only(bad, {"types", "edges"})) ELSE {})
  \cup (CASE kind \in {"mig", "repart"} -> Tag("C01", Only(bad, {"vertices", "owner", "weight", "coords", "orig"})) \cup Tag("C02", Only(bad, {"types", "edges"}))
          [] kind \in {"graph"} -> Tag("C05", Only(bad, {"vertices", "owner", "weight", "coords", "edges", "types"}))
          [] kind \in {"balance"} -> Tag("C11", bad)
          [] kind \in {"load"} -> Tag("C07", bad)
          [] kind \in {"binload"} -> Tag("C16", bad)
          [] kind \in {"split"} -> Tag("C15", bad)
          [] kind \in {"weights"} -> Tag("C14", bad)
          [] kind \in {"update"} -> Tag("C23", bad)
          [] OTHER -> Tag("C05", bad))
ViaC(bad) == IF "c" \in DOMAIN In /\ In.c > 0 THEN {"C18:" \o b : b \in bad} ELSE {}
(* tags from ViewProps also count for the C interface *)
Report(bad) == bad # {} => PrintT("BAD " \o ToJson([case |-> E0.case, op |-> E0.op, ev |-> E0.ev, bad |-> bad]))

(* Runs of the same operation on the same state that have to agree: through another interface (C18: what *)
(* the processes show, but for local numbers) or under another schedule (C22: everything they show).      *)
Steps1(o) == [k \in DOMAIN o |-> [plan |-> Ran(o[k].plan)] @@ (IF "own" \in DOMAIN o[k] THEN [own |-> o[k].own, after |-> o[k].after] ELSE <<>>)]
Exact1(k, x, o) == IF k = "steps" THEN Steps1(x) ELSE IF k = "m" \/ (k = "plan" /\ "steps" \notin DOMAIN o) THEN Ran(x) ELSE x
Exact(o) == [k \in DOMAIN o \ {"x", "took"} |-> Exact1(k, o[k], o)]
BagOf(s) == LET S == Ran(s) IN [x \in S |-> Cardinality({i \in DOMAIN s : s[i] = x})]
LooseP(P) == [nt |-> P.nt, hy |-> P.hy, gv |-> P.gv, ge |-> P.ge, gp |-> P.gp, V |-> {<<x.g, x.w, x.c, x.oo>> : x \in Ran(P.V)}, H |-> {<<x.g, x.w, x.o>> : x \in Ran(P.H)},
              E |-> [t \in DOMAIN P.E |-> BagOf([i \in DOMAIN P.E[t] |-> <<P.E[t][i].p, P.E[t][i].w, IF P.hy = 1 THEN P.E[t][i].g ELSE "">>])]]
Loose1(k, x, o) == IF k = "p" THEN LooseP(x) ELSE Exact1(k, x, o)
Loose(o) == IF "gv" \in DOMAIN o THEN LooseP(o) ELSE [k \in DOMAIN o \ {"x", "h", "took"} |-> Loose1(k, o[k], o)]
Canon == [r \in 1..NR |-> IF In.agree = "C18" THEN Loose(Out[r]) ELSE Exact(Out[r])]
Keyed == "key" \in DOMAIN In
Agreement == IF Keyed /\ In.key \in DOMAIN aux.memo /\ aux.memo[In.key] # Canon THEN {In.agree \o ":agree"} ELSE {}
Memo(a) == IF Keyed /\ In.key \notin DOMAIN aux.memo THEN [a EXCEPT !.memo = (In.key :> TLCEval(Canon)) @@ @] ELSE a

(* the common ending of an action: G2 the allowed next graph, out the projections shown *)
Shown(kind, G2, out, more, aux2) ==
  LET bad == ViewBad(G2, out)
      all == ViewProps(kind, bad) \cup more
  IN /\ Report(all \cup ViaC(all) \cup Agreement)
     /\ G' = IF bad = {} THEN G2 ELSE Abs(G2, out)
     /\ aux' = Memo(aux2)
     /\ l' = l + 1
Quiet(bad, G2, aux2) == Report(bad \cup ViaC(bad) \cup Agreement) /\ G' = G2 /\ aux' = Memo(aux2) /\ l' = l + 1
Touched == [aux EXCEPT !.from = ""]
Fresh == [aux EXCEPT !.from = "", !.moved = <<>>, !.movedok = TRUE]       \* a new graph
Moved == [aux EXCEPT !.from = "", !.movedok = FALSE]   \* vertices moved: what the weight partition then shows is not specified

(* ---------------------------------------------------------------- starting *)
CaseEv == IsEvent("case") /\ G' = EmptyG(E0.n) /\ aux' = [NoAux EXCEPT !.act = [r \in 1..E0.n |-> World(E0.n)]] /\ l' = l + 1
EndEv == IsEvent("endcase") /\ UNCHANGED <<G, aux>> /\ l' = l + 1
(* the library starts the message layer unless the application did, and stops what it started *)
InitEv == IsEvent("init") /\
  LET bad == F("C20:start", \A r \in 1..NR : Out[r].self = r - 1 /\ Out[r].peers = NR)
      how == IF "how" \in DOMAIN In THEN In.how ELSE "engpar"
  IN Quiet(bad, G, [aux EXCEPT !.pcu = TRUE, !.ours = ~aux.pcu /\ how \notin {"pcu", "both"}, !.ordered = IF aux.pcu THEN @ ELSE TRUE,
                               !.act = [r \in 1..NR |-> World(NR)]])
FiniEv == IsEvent("fini") /\
  LET how == IF "how" \in DOMAIN In THEN In.how ELSE "engpar"
      still == how # "pcu" /\ ~aux.ours /\ "how" \in DOMAIN In
  IN Quiet(F("C20:finalize", \A r \in 1..NR : Out[r].init = Bit(still)), EmptyG(G.n), [aux EXCEPT !.pcu = still, !.ours = FALSE])
LeftEv == IsEvent("end") /\ Quiet(F("C09:left", \A r \in 1..NR : Out[r].left = 0) \cup F("C20:left", \A r \in 1..NR : Out[r].left = 0), G, aux)
LogEv == IsEvent("log") /\ Quiet({}, G, [aux EXCEPT !.log = In.on = 1])
(* What was written to the log during the operation before: its entries, indented by two for each entry still running.      *)
(* Every process but the first writes none; an operation leaves no entry running.                                           *)
LogReadEv == IsEvent("logread") /\
  LET lines == Out[1].lines
      head == SelectSeq(lines, LAMBDA x : x.d % 2 = 0)
      top == SelectSeq(head, LAMBDA x : x.d = 0)
      sort == IF G.hy THEN "Creating hypergraph" ELSE "Creating traditional graph"
      build == <<"constructVerts: " \o sort>> \o [t \in 1..G.nt |-> "constructEdges: " \o ToString(t - 1)] \o <<"constructGhosts">>
      gone == IF In.gone = 1 THEN <<"destroyGraph">> ELSE <<>>
      want == CASE ~aux.log -> <<>>
                [] In.k \in {"graph", "cgraph"} -> gone \o (IF In.form = "cg" THEN <<"constructGraph: " \o sort>> ELSE build)
                [] In.k = "load" -> gone \o build
                [] In.k = "binload" -> gone \o <<"createBinGraph " \o In.path>>
                [] In.k = "destroy" -> gone
                [] In.k = "mig" -> (IF In.first = 1 THEN <<"setOriginalOwners">> ELSE <<>>) \o build
                [] In.k = "repart" -> <<"setOriginalOwners">> \o build
                [] In.k = "addedges" -> <<"constructEdges: " \o ToString(G.nt - 1), "constructGhosts">>
                [] In.k = "rmedges" -> <<"destroyEdges " \o ToString(In.i.t - 1)>>
                [] In.k = "setorig" -> <<"setOriginalOwners">>
                [] In.k \in {"resetown", "resetpart"} -> <<"resetOriginalOwners">>
                [] In.k = "getpart" -> <<"getPartition">>
                [] In.k = "balance" -> <<"makeBalancer", "balance() : ">> \o (IF In.i.pwb = 1 /\ NR > 1 THEN <<"destroyGraph">> ELSE <<>>)
                [] In.k = "wbal" -> <<"balanceWeights">>
                [] OTHER -> <<>>
      nested == \A j \in DOMAIN head : head[j].d <= (IF j = 1 THEN 0 ELSE head[j - 1].d + 2)
      opts == {<<x.s, x.v>> : x \in Ran(SelectSeq(lines, LAMBDA x : x.d % 2 = 1))}
      tols == SelectSeq([i \in DOMAIN In.i.pri |-> In.i.pri[i].tol], LAMBDA x : x >= 0)
      asked == {<<"priorities", [i \in DOMAIN In.i.pri |-> 1000 * In.i.pri[i].d]>>, <<"maxIterations", <<1000 * In.i.it>>>>, <<"maxIterationsPerType", <<1000 * In.i.itt>>>>,
                <<"step_factor", <<In.i.sf>>>>, <<"sides_edge_type", <<1000 * In.i.sides>>>>, <<"selection_edge_type", <<0>>>>, <<"countGhosts", <<1000 * In.i.ghosts>>>>}
               \cup (IF tols = <<>> THEN {} ELSE {<<"tolerances", tols>>})
  IN Quiet(F("C27:open", \A r \in 1..NR : Out[r].open = Bit(r = 1 /\ aux.log)) \cup F("C27:entries", [j \in DOMAIN top |-> top[j].s] = want)
           \cup F("C27:nesting", nested) \cup F("C27:options", opts = IF aux.log /\ In.k = "balance" THEN asked ELSE {}), G, aux)
(* the check is asked about a graph of which one number is wrong (hit: on which processes), and then about the right one *)
CorruptEv == IsEvent("corrupt") /\
  Quiet(F("C27:rejects", \A r \in 1..NR : Out[r].hit = 1 => Out[r].ok = 0) \cup F("C27:accepts", (\A r \in 1..NR : Out[r].hit = 0) => \A r \in 1..NR : Out[r].ok = 1)
        \cup F("C27:again", \A r \in 1..NR : Out[r].again = 1) \cup F("C27:error", \A r \in 1..NR : Out[r].err = Bit(Out[r].ok = 0) /\ Out[r].err2 = Bit(Out[r].again = 0))
        \cup F("C27:hit", In.what \in {"none", "pin", "self", "far"} \/ \A r \in 1..NR : Out[r].hit = 1), G, aux)
(* a message on the first process: what the standard output shows of it, and the test status *)
MsgEv == IsEvent("msg") /\
  LET text == In.txt \o " " \o ToString(In.lv)
      want == CASE In.how = "s" -> <<"ENGPAR " \o text>>
                [] In.how = "v" -> IF In.verb >= In.lv THEN <<"ENGPAR " \o text>> ELSE <<>>
                [] In.how = "w" -> <<"[WARNING] ENGPAR " \o text>>
                [] OTHER -> <<>>
  IN Quiet(F("C27:message", Out[1].said = want) \cup F("C27:error", \A r \in 1..NR : Out[r].err = Bit(r = 1 /\ In.how = "e") /\ Out[r].again = 0)
           \cup F("C27:verbosity", \A r \in 1..NR : Out[r].chk = Bit(In.verb >= In.lv)), G, aux)
(* a plan for moving weight: every answer from the entries made since it was last emptied *)
RECURSIVE WPlanOK(_, _, _, _)
WPlanOK(todo, got, acct, size) ==
  IF todo = <<>> THEN got = <<>>
  ELSE got # <<>> /\
    LET c == Head(todo)
        a == Head(got)
        key == <<c.u, c.v>>
        has(k) == k \in DOMAIN acct
        next == IF c.o = "i" THEN (key :> (c.w + IF has(key) THEN acct[key] ELSE 0)) @@ acct ELSE IF c.o = "c" THEN <<>> ELSE acct
        ok == CASE c.o \in {"i", "c"} -> a = 0
                [] c.o = "s" -> a = size \div 1000
                [] c.o = "l" -> Len(a) = Cardinality(DOMAIN acct) /\ Ran(a) = {<<k[1], k[2], acct[k]>> : k \in DOMAIN acct}
                [] c.o = "h" -> a = Bit(\E k \in DOMAIN acct : k[1] = c.u)
                [] c.o = "H" -> a = Bit(has(key))
                [] c.o = "g" -> has(key) /\ a = acct[key]
    IN ok /\ WPlanOK(Tail(todo), Tail(got), next, IF c.o = "i" THEN size + c.w ELSE IF c.o = "c" THEN 0 ELSE size)
WPlanEv == IsEvent("wplan") /\ Quiet(F("C14:plan", \A r \in 1..NR : WPlanOK(In.s[r], Out[r].r, <<>>, 0)), G, aux)
(* items written through a PCU file: read back the same; numbers in network byte order, texts with a zero behind them *)
PcuIoEv == IsEvent("pcuio") /\
  LET four(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
      RECURSIVE flat(_)
      flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o flat(Tail(q))
      bytes(it) == CASE it.o = "u" -> flat([i \in DOMAIN it.v |-> four(it.v[i])])
                     [] it.o = "d" -> flat(it.be)
                     [] it.o = "s" -> it.v \o <<0>>
                     [] OTHER -> it.v
  IN Quiet(F("C28:back", \A r \in 1..NR : Out[r].got = [i \in DOMAIN In.s[r] |-> In.s[r][i].v])
           \cup F("C28:bytes", \A r \in 1..NR : Out[r].raw = flat([i \in DOMAIN In.s[r] |-> bytes(In.s[r][i])])), G, aux)
(* debug output: what each process printed since it opened its file, in that file *)
DebugEv == IsEvent("debug") /\
  LET was(r) == IF r \in DOMAIN aux.dbg THEN aux.dbg[r] ELSE [on |-> FALSE, lines |-> <<>>]
      now == [r \in 1..NR |-> LET on == was(r).on \/ In.s[r].open = 1
                              IN [on |-> on, lines |-> was(r).lines \o IF on THEN [i \in DOMAIN In.s[r].tx |-> In.s[r].tx[i] \o " " \o ToString(i - 1)] ELSE <<>>]]
  IN Quiet(F("C28:debug", \A r \in 1..NR : Out[r].there = Bit(now[r].on) /\ Out[r].lines = now[r].lines), G, [aux EXCEPT !.dbg = TLCEval(now)])
SkipEv == (IsEvent("skip") \/ IsEvent("sched")) /\ Quiet({}, G, aux)

(* ------------------------------------------------------------ construction *)
FromInput(n) ==
  LET V == UNION {Gids(In.V[r]) : r \in DOMAIN In.V}
      at(v) == CHOOSE r \in DOMAIN In.V : v \in Gids(In.V[r])
      wt(v) == LET s == In.V[at(v)] IN s[CHOOSE i \in DOMAIN s : s[i].g = v].w
  IN [n |-> n, hy |-> In.hy = 1, nt |-> In.nt, V |-> V, own |-> [v \in V |-> at(v) - 1], w |-> [v \in V |-> wt(v)],
      hasc |-> FALSE, c |-> <<>>, hasoo |-> FALSE, oo |-> <<>>,
      E |-> [t \in 1..In.nt |-> Ran(In.E[t])], gw |-> TRUE, gx |-> FALSE]
ConstructEv == (IsEvent("graph") \/ IsEvent("cgraph")) /\
  LET G2 == FromInput(NR)
      order == F("C05:order", \A r \in 1..NR : [i \in DOMAIN Out[r].V |-> Out[r].V[i].g] = [i \in DOMAIN In.V[r] |-> In.V[r][i].g])
  IN Shown("graph", G2, Out, order, Fresh)
BinFileEv == IsEvent("binfile") /\ Quiet({}, G, aux)
BinLoadEv == IsEvent("binload") /\
  LET V == Ran(In.verts)
      one == OneOwner(Out, V)
      G2 == [n |-> NR, hy |-> FALSE, nt |-> 1, V |-> V,
             own |-> IF ~one THEN [v \in V |-> 0] ELSE IF In.part = <<>> THEN ObsOwn(Out, V) ELSE [v \in V |-> (CHOOSE x \in Ran(In.part) : x[1] = v)[2]],
             w |-> [v \in V |-> 1000], hasc |-> FALSE, c |-> <<>>, hasoo |-> FALSE, oo |-> <<>>, E |-> <<Ran(In.E)>>, gw |-> TRUE, gx |-> FALSE]
  IN Shown("binload", G2, Out, {}, Fresh)
(* a split: before it the graph is on the small set; the events of a split show the larger set *)
SplitEv == IsEvent("split") /\
  LET z == In.method = "ZOLTAN_PHG"
      small == Ran(In.map)
      called == F("C15:called", \A r \in 1..NR : Out[r].called = Bit(z \/ r - 1 \in small))
      inbad == IF called # {} THEN {} ELSE IF z THEN ZoltanBad(G, In, [r \in 1..NR |-> Out[r].in]) ELSE MetisBad(G, In, [i \in DOMAIN In.map |-> Out[In.map[i] + 1].in])
      comm == F("C15:communicator", \A r \in 1..NR : Out[r].self = r - 1 /\ Out[r].peers = NR)
  IN Shown("split", SplitGraph(G, NR, In), HasP, called \cup Tag("C15", inbad) \cup comm, [Fresh EXCEPT !.act = [r \in 1..NR |-> World(NR)]])
EmptyEv == (IsEvent("empty") \/ IsEvent("destroy")) /\ Quiet({}, EmptyG(G.n), Fresh)
ProjEv == IsEvent("proj") /\ Shown("proj", G, Out, {}, aux)
ValidEv == IsEvent("valid") /\ Quiet(F("C05:valid", \A r \in 1..NR : Out[r].ok = 1 /\ Out[r].err = 0), G, aux)

(* ------------------------------------------------------ updates and removal *)
MapOf(s, key(_), val(_)) == [x \in {key(s[i]) : i \in DOMAIN s} |-> val(s[CHOOSE i \in DOMAIN s : key(s[i]) = x])]
KeyG(x) == x.g
Key1(x) == x[1]
Val2(x) == x[2]
ValW(x) == x.w
ValC(x) == x.c
CoordsEv == IsEvent("coords") /\ Shown("update", SetCoords(G, MapOf(In.m, KeyG, ValC)), Out, {}, Touched)
SetWEv == IsEvent("setw") /\ Shown("update", SetWeights(G, MapOf(In.m, KeyG, ValW)), Out, {}, Touched)
SetEWEv == IsEvent("setew") /\ Shown("update", SetEdgeWeights(G, In.t, In.w), Out, {}, Touched)
RemoveEv == IsEvent("rmedges") /\ Shown("update", RemoveEdges(G, In.t), Out, {}, Touched)
AddEv == IsEvent("addedges") /\ Shown("update", AddEdges(G, Ran(In.E)), Out, {}, Touched)
SetOrigEv == IsEvent("setorig") /\ Shown("update", WithOO(G), Out, {}, aux)
ResetOwnEv == IsEvent("resetown") /\ Shown("update", ResetOwners(G), Out, {}, aux)
\* the application tells where the vertices came from, for a graph that has no records yet
SetOrigVEv == IsEvent("setorigv") /\ Shown("update", [G EXCEPT !.hasoo = TRUE, !.oo = LET m == MapOf(In.m, Key1, Val2) IN [v \in G.V |-> m[v]]], Out, {}, aux)
\* forgetting the partition: the present owners become the original ones, and no weight has moved
ResetPartEv == IsEvent("resetpart") /\
  Shown("update", ResetOwners(G), HasP, F("C14:forgotten", \A r \in 1..NR : Out[r].left = 0), [aux EXCEPT !.moved = <<>>, !.movedok = TRUE])

(* ---------------------------------------------------------------- migration *)
(* a plan is the list of insertions a process made; the last one for a vertex counts, "-1" clears *)
RECURSIVE Fold(_, _)
Fold(s, acc) == IF s = <<>> THEN acc
                ELSE Fold(Tail(s), IF Head(s)[1] = "-1" THEN <<>> ELSE (Head(s)[1] :> Head(s)[2]) @@ acc)
\* entries for vertices the process does not own are left out by the driver
PlanOf(r) == LET P(x) == x[1] = "-1" \/ (x[1] \in G.V /\ G.own[x[1]] = r - 1) IN SelectSeq(In.plan[r], P)
RankPlan(r) == Fold(PlanOf(r), <<>>)
RECURSIVE Rets(_, _)
Rets(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s)[1] = "-1" THEN <<2>> \o Rets(Tail(s), {})
                 ELSE <<Bit(Head(s)[1] \notin seen)>> \o Rets(Tail(s), seen \cup {Head(s)[1]})
RECURSIVE Union(_, _)
Union(fs, r) == IF r = 0 THEN <<>> ELSE fs[r] @@ Union(fs, r - 1)
(* ------------------------------------------------------------------- timers *)
(* by name: the time added so far on each process (millionths), how often, whether a migration added real time, *)
(* and whether it was added to by hand                                                                          *)
Four == {"setup", "comm", "build", "total"}
Timed(T) == [k \in DOMAIN T |-> IF k \in Four THEN [T[k] EXCEPT !.n = [r \in DOMAIN @ |-> @[r] + 1], !.real = TRUE] ELSE T[k]]
Near(x, y, d) == x <= y + d /\ y <= x + d
TimersEv == IsEvent("timers") /\
  LET T == aux.timers
      none == [t |-> [r \in 1..NR |-> 0], n |-> [r \in 1..NR |-> 0], real |-> FALSE, hand |-> FALSE]
      T2 == CASE In.do = "new" -> <<>>
              [] In.do = "add" -> (In.k :> none) @@ T
              [] In.do = "upd" -> [T EXCEPT ![In.k] = [t |-> [r \in 1..NR |-> @.t[r] + SumSeq(In.v[r])], n |-> [r \in 1..NR |-> @.n[r] + Len(In.v[r])], real |-> @.real, hand |-> TRUE]]
              [] OTHER -> T
      row(r, i) == Out[r].t[i]
      nm(i) == Out[1].t[i].k
      col(i) == [r \in 1..NR |-> row(r, i).t]
      time(i) == F("C30:time", \A r \in 1..NR : LET e == T[nm(i)] IN IF e.real THEN row(r, i).t >= e.t[r] - 1 ELSE Near(row(r, i).t, e.t[r], 1))
      count(i) == F("C30:count", \A r \in 1..NR : row(r, i).n = T[nm(i)].n[r])
      all(i) == F("C30:collective", \A r \in 1..NR :
                  /\ row(r, i).max = SetMax(Ran(col(i))) /\ Near(row(r, i).avg * NR, SumSeq(col(i)), 2 * NR)
                  /\ row(r, i).cmax # -1 => LET per == [q \in 1..NR |-> row(q, i).t \div T[nm(i)].n[q]]
                                            IN Near(row(r, i).cmax, SetMax(Ran(per)), 2) /\ Near(row(r, i).cavg * NR, SumSeq(per), 3 * NR))
      of(k) == CHOOSE i \in DOMAIN Out[1].t : nm(i) = k
      whole == F("C30:parts", (Four \subseteq {nm(i) : i \in DOMAIN Out[1].t} /\ \A k \in Four : ~T[k].hand) =>
                  \A r \in 1..NR : /\ row(r, of("setup")).t + row(r, of("comm")).t + row(r, of("build")).t <= row(r, of("total")).t + 4
                                    /\ T["total"].real => \A k \in Four : row(r, of(k)).t >= 0)
  IN Quiet(IF In.do = "get" THEN whole \cup UNION {time(i) \cup count(i) \cup all(i) : i \in DOMAIN Out[1].t} ELSE {}, G, [aux EXCEPT !.timers = TLCEval(T2)])
MigrateEv == IsEvent("mig") /\
  LET fs == [r \in 1..NR |-> RankPlan(r)]
      plan == Union(fs, NR)
      G2 == Migrate(G, plan)
      pairs(f) == {<<v, f[v]>> : v \in DOMAIN f}
      planbad == F("C01:plan", \A r \in 1..NR :
           /\ Out[r].size = Cardinality(DOMAIN fs[r])
           /\ Ran(Out[r].plan) = pairs(fs[r]) /\ Len(Out[r].plan) = Out[r].size
           /\ Ran(Out[r].has) = pairs(fs[r])
           /\ Out[r].ret = Rets(PlanOf(r), {}))
  IN Shown("mig", G2, HasP, planbad, IF "timed" \in DOMAIN In THEN [Fresh EXCEPT !.timers = Timed(@)] ELSE Fresh)
RepartEv == IsEvent("repart") /\
  LET G2 == Migrate(G, MapOf(In.m, Key1, Val2)) IN Shown("repart", G2, Out, {}, Fresh)
GetPartEv == IsEvent("getpart") /\
  LET G2 == WithOO(G)
      bad == F("C04:map", \A r \in 1..NR :
        LET m == PartitionMap(G2, r - 1) IN
          /\ Ran(Out[r].m) = {<<v, m[v]>> : v \in DOMAIN m}
          /\ Len(Out[r].m) = Cardinality(DOMAIN m))
      \* applying the maps to the original distribution gives the present one
      back == F("C04:replay", \A v \in G2.V : \E x \in Ran(Out[G2.oo[v] + 1].m) : x = <<v, G2.own[v]>>)
  IN Quiet(bad \cup back, G, aux)

(* ----------------------------------------------------------------- save/load *)
SaveEv == IsEvent("save") /\
  LET h == [r \in 1..NR |-> Out[r].h]
      same == F("C07:same", aux.from # "" => h = aux.hashes[aux.from])
      aux2 == [aux EXCEPT !.saved = (In.name :> G) @@ aux.saved, !.hashes = (In.name :> h) @@ aux.hashes]
  IN Quiet(F("C07:file", \A r \in 1..NR : Out[r].ok = 1) \cup same, G, aux2)
LoadEv == IsEvent("load") /\
  LET S == aux.saved[In.name]
      G2 == [S EXCEPT !.hasoo = FALSE, !.oo = <<>>, !.gw = TRUE, !.gx = FALSE]
  IN Shown("load", G2, Out, {}, [Fresh EXCEPT !.from = In.name])

(* --------------------------------------------------------------------- tags *)
(* aux.tags[r]: what each entity of process r-1 holds, by <<tag, entity>>        *)
RECURSIVE TagFold(_, _, _)
TagFold(s, st, gets) ==
  IF s = <<>> THEN <<st, gets>>
  ELSE LET c == Head(s) IN
       TagFold(Tail(s), IF c[1] = "set" THEN (<<c[2], c[3]>> :> c[4]) @@ st
                        ELSE IF c[1] = "del" THEN [x \in {y \in DOMAIN st : y[1] # c[2]} |-> st[x]] ELSE st,
                IF c[1] = "get" THEN Append(gets, st[<<c[2], c[3]>>]) ELSE gets)
TagState(r) == IF r \in DOMAIN aux.tags THEN aux.tags[r] ELSE <<>>
TagsEv == IsEvent("tags") /\
  LET res == [r \in 1..NR |-> TagFold(In.cmds[r], TagState(r), <<>>)]
  IN Quiet(F("C08:value", \A r \in 1..NR : Out[r].gets = res[r][2]), G, [aux EXCEPT !.tags = [r \in 1..NR |-> res[r][1]]])
(* a shared tag: every ghost shows what its owner computed (base + step * owner) or held *)
GTagEv == IsEvent("gtag") /\
  LET val == [v \in G.V |-> IF In.of = "" THEN ToString(MapOf(In.m, KeyG, ValW)[v] + In.step * G.own[v])
                            ELSE LET st == TagState(G.own[v] + 1) IN IF <<In.of, v>> \in DOMAIN st THEN st[<<In.of, v>>] ELSE "unset"]
  IN Quiet({}, G, [aux EXCEPT !.shared = (In.id :> val) @@ aux.shared])
GhostGetEv == IsEvent("ghostget") /\
  LET ok(r, k) == LET a == Out[r].t[k].a
                      val == aux.shared[In.ids[k]]
                  IN /\ Ghosts(G, r - 1) \subseteq {a[i][1] : i \in DOMAIN a} /\ (~G.gx => Len(a) = Cardinality(Ghosts(G, r - 1)))
                     /\ \A i \in DOMAIN a : a[i][2] = val[a[i][1]]
  IN Quiet(F("C08:shared", \A r \in 1..NR : \A k \in DOMAIN In.ids : ok(r, k)), G, aux)

(* -------------------------------------------------------- second adjacencies *)
EdgeName(e) == IF G.hy THEN e.id ELSE e.p[1] \o ">" \o e.p[2]
Reach(e) == IF G.hy THEN Pins(e) ELSE {e.p[2]}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
VevOK(P, t, comp, r) ==
  LET held == Held(G, t, r)
      of(v) == {e \in held : IF G.hy THEN v \in Pins(e) ELSE e.p[1] = v}
      nbr(v) == UNION {Reach(e) : e \in of(v)}
      ok(a) == /\ a.g \in Owned(G, r)
               /\ Ran(a.n) = (IF comp THEN nbr(a.g) \ {a.g} ELSE nbr(a.g))
               /\ \A x \in Ran(a.n) : CountIn(a.n, x) = IF comp THEN 1 ELSE Cardinality({e \in of(a.g) : x \in Reach(e)})
  IN Len(P) = Cardinality(Owned(G, r)) /\ {P[i].g : i \in DOMAIN P} = Owned(G, r) /\ \A i \in DOMAIN P : ok(P[i])
(* an edge's list: the edges of its locally owned vertices; directed edges are told apart by their end points *)
EveOK(P, t, comp, r) ==
  LET held == Held(G, t, r)
      out(v) == {f \in held : IF G.hy THEN v \in Pins(f) ELSE f.p[1] = v}
      mine(e) == Pins(e) \cap Owned(G, r)
      all(e) == UNION {out(v) : v \in mine(e)}
      cnt(e, x) == IF comp THEN Cardinality({f \in all(e) \ {e} : EdgeName(f) = x})
                   ELSE SumOver(mine(e), [v \in mine(e) |-> Cardinality({f \in out(v) : EdgeName(f) = x})])
      names == {EdgeName(e) : e \in held}
      matches(a, e) == /\ \A i \in DOMAIN a.n : a.n[i][1] = t - 1 /\ a.n[i][2] \in names
                       /\ \A x \in names : Cardinality({i \in DOMAIN a.n : a.n[i][2] = x}) = cnt(e, x)
  IN /\ Len(P) = Cardinality(held)
     /\ \A x \in names : Cardinality({i \in DOMAIN P : P[i].g = x}) = Cardinality({e \in held : EdgeName(e) = x})
     /\ \A i \in DOMAIN P : \E e \in held : EdgeName(e) = P[i].g /\ matches(P[i], e)
AdjEv == (IsEvent("vev") \/ IsEvent("eve") \/ IsEvent("reada")) /\
  LET key == <<In.k, In.t>>
      comp == IF E0.ev = "reada" THEN aux.adj[key] ELSE In.comp = 1
      ok(r) == IF In.k = "vev" THEN VevOK(Out[r].a, In.t, comp, r - 1) ELSE EveOK(Out[r].a, In.t, comp, r - 1)
  IN Quiet(F("C21:" \o In.k, \A r \in 1..NR : ok(r)), G, [aux EXCEPT !.adj = (key :> comp) @@ aux.adj])

(* ------------------------------------------------------------ moving weight *)
(* m: the union over processes of the weight partitions, <<u, v, w>> *)
AllPlans == UNION {Ran(Out[r].plan) : r \in 1..NR}
AllMaps == UNION {{<<r - 1, Out[r].m[i]>> : i \in DOMAIN Out[r].m} : r \in 1..NR}
\* what weight migrations and balancing runs have moved since the map was cleared: u's owner minus, v's owner plus
WMigEv == IsEvent("wmig") /\
  LET G2 == MoveWeight(G, [r \in 1..NR |-> Out[r].plan])
      moved == AddMoves(aux.moved, [r \in 1..NR |-> Out[r].plan])
      planbad == F("C14:plan", \A r \in 1..NR : SamePlan(Out[r].plan, In.plan[r]))
      mapbad == F("C14:map", aux.movedok => WeightMapOK(G, moved, Out))
  IN Shown("weights", G2, HasP, planbad \cup mapbad, [Touched EXCEPT !.moved = moved])
(* a balancing run: steps observed one by one *)
WBalEv == IsEvent("wbal") /\
  LET K == Len(Out[1].steps)
      seq == WSteps(G, 1, K, Out)
      GK == seq[K + 1]
      plan(k, r) == Out[r].steps[k].plan
      dir == F("C14:direction", \A k \in 1..K : \A r \in 1..NR : WDirOK(seq[k], plan(k, r), r - 1, In.t))
      amt == F("C14:amount", \A k \in 1..K : \A r \in 1..NR : WAmountOK(seq[k], plan(k, r), r - 1, In.t, In.sf))
      cnt == F("C14:steps", (\A r \in 1..NR : Len(Out[r].steps) = K) /\ K <= In.it)
      done == F("C14:balanced", WithinTol(G, -1, FALSE, In.tol) => K = 0)
      prog == F("C14:progress", (cnt = {} /\ NR > 1 /\ K < In.it) =>
                  \/ AtMost(GK, -1, FALSE, In.tol) \/ TotalLoad(G, Loads(G, -1, FALSE)) = 0
                  \/ MayStagnate([j \in 1..(K + 1) |-> Imb(seq[j], -1, FALSE)]) \/ ~WCanMove(GK, In.t, In.sf))
      mapok == F("C14:account", NR > 1 => WAccount(G, GK, Out))
      say == IF cnt = {} THEN Tag("C26", WTalkBad(G, Out[1].say, seq, K, In)) ELSE {}
      lv == IF cnt = {} /\ In.verb >= 3 THEN WLevelsBad(Out[1].levels, Out[1].say, seq, K, In) ELSE {}
      levels == Tag("C26", lv) \cup (IF lv = {"targets"} THEN Tag("C14", {"told"}) ELSE {})
  IN Shown("weights", [GK EXCEPT !.gw = (K > 0) \/ @], HasP, dir \cup amt \cup cnt \cup prog \cup done \cup mapok \cup say \cup levels, [Touched EXCEPT !.moved = IF NR = 1 THEN @ ELSE LET all == UNION {Ran(Out[r].m) : r \in 1..NR} IN [k \in {<<x[1], x[2]>> : x \in all} |-> (CHOOSE x \in all : <<x[1], x[2]>> = k)[3]],
                                      !.movedok = IF NR = 1 THEN @ ELSE TRUE])

(* ----------------------------------------------------------- load balancing *)
BalanceEv == IsEvent("balance") /\
  LET K == Len(Out[1].steps)
      same == \A r \in 1..NR : Len(Out[r].steps) = K
      plan(k) == [v \in UNION {{x[1] : x \in Ran(Out[r].steps[k].plan)} : r \in 1..NR} |->
                   LET r == CHOOSE r \in 1..NR : \E x \in Ran(Out[r].steps[k].plan) : x[1] = v
                   IN (CHOOSE x \in Ran(Out[r].steps[k].plan) : x[1] = v)[2]]
      plans == [k \in 1..K |-> plan(k)]
      st == [k \in 1..K |-> Out[1].steps[k].st]
      G0 == IF NR > 1 THEN WithOO(G) ELSE G
      seq == Steps(G0, plans, K)
      GK == seq[K + 1]
      known == In.ghosts = 1 => GhostsKnown(G)
      usable == known /\ In.verb >= 0 /\ \A k \in 1..K : st[k] \in 1..Len(In.pri)
      local == F("C11:steps", same /\ \A k \in 1..K : \A r \in 1..NR :
                 /\ Ran(Out[r].steps[k].own) = Owned(seq[k], r - 1)
                 /\ Ran(Out[r].steps[k].after) = Owned(seq[k + 1], r - 1)
                 /\ {x[1] : x \in Ran(Out[r].steps[k].plan)} \subseteq Owned(seq[k], r - 1))
      lim == F("C11:limits", K <= In.it /\ ((\A k \in 1..K : st[k] \in 1..Len(In.pri)) => \A i \in 1..Len(In.pri) : Cardinality({k \in 1..K : st[k] = i}) <= In.itt))
      noop == F("C11:balanced", known /\ (\A i \in 1..Len(In.pri) : WithinTol(G, In.pri[i].d, In.ghosts = 1, In.pri[i].tol)) => K = 0)
      c12 == F("C12:limit", usable => LimitsOK(seq, st, K, In.pri, In.ghosts = 1))
      c13 == IF usable /\ In.mincon <= 1 /\ In.pwb = 0
             THEN F("C13:direction", \A k \in 1..K : DirOK(seq[k], plans[k], In.sides + 1, In.pri[st[k]].d, In.ghosts = 1))
                  \cup F("C13:amount", \A k \in 1..K : AmountOK(seq[k], plans[k], In.sides + 1, In.pri[st[k]].d, In.ghosts = 1, In.sf))
                  \cup F("C13:share", \A k \in 1..K : SidesOK(seq[k], seq[SetMin({j \in 1..K : st[j] = st[k]})], plans[k], In.sides + 1))
                  \cup F("C13:progress",
                       LET gh == In.ghosts = 1
                           before(i) == Cardinality({k \in 1..K : st[k] < i})
                           upto(i) == before(i + 1)
                           (* the targets treated earlier leave room for everything, so that nothing is trimmed *)
                           roomy(i) == \A j \in 1..(i - 1) : LET X == seq[upto(i) + 1] IN Limit(seq[upto(j) + 1], In.pri[j], gh) > TotalLoad(X, Loads(X, In.pri[j].d, gh)) + 1000
                           moved(i) ==
                             LET b == before(i)
                                 m == upto(i) - b
                                 p == In.pri[i]
                             IN (b + m < In.it /\ m < In.itt /\ p.d + 1 <= G.nt /\ (gh => \A k \in 1..(b + m + 1) : GhostsKnown(seq[k])) /\ roomy(i))
                                => (AtMost(seq[b + m + 1], p.d, gh, p.tol) \/ TotalLoad(seq[b + m + 1], Loads(seq[b + m + 1], p.d, gh)) = 0
                                    \/ MayStagnate([j \in 1..(m + 1) |-> Imb(seq[b + j], p.d, gh)]) \/ ~CanMove(seq[b + m + 1], seq[b + 1], In.sides + 1, p.d, gh))
                       IN (NR > 1 /\ In.cut = 0) => \A i \in 1..Len(In.pri) : moved(i))
             ELSE {}
      c29 == IF In.pwb = 0 \/ NR = 1 \/ ~same \/ local # {} \/ ~usable \/ In.mincon > 1 THEN {} ELSE
               LET gh == In.ghosts = 1
                   t == In.sides + 1
                   before(i) == Cardinality({k \in 1..K : st[k] < i})
                   upto(i) == before(i + 1)
                   sound == \A r \in 1..NR : Len(Out[r].part) = Len(Out[1].part) /\ \A j \in DOMAIN Out[r].part : Out[r].part[j].st = Out[1].part[j].st
                   js(i) == {j \in DOMAIN Out[1].part : Out[1].part[j].st = i}
                   first(i) == SetMin(js(i)) - 1
                   moves(i) == TLCEval([k \in 1..Cardinality(js(i)) |-> [r \in 1..NR |-> Out[r].part[first(i) + k].plan]])
                   bad(i) ==
                     LET p == In.pri[i]
                         Z == seq[before(i) + 1]
                         mv == moves(i)
                         M == Len(mv)
                         b == before(i)
                         m == upto(i) - b
                         pg == PartGraphs(PartGraph(Z, p.d, gh, t), mv, M)
                         tol == (3 * p.tol) \div 4
                         rest0 == TLCEval([r \in Ranks(Z) |-> [q \in Ranks(Z) |-> PartPlan(mv, r, q)]])
                         rest(k) == PartRest(seq, plans, b, k, p.d, rest0)
                         free == i = 1
                     IN F("C29:weights", \A k \in 1..M : \A r \in 1..NR : WDirOK(pg[k], mv[k][r], r - 1, 1) /\ WAmountOK(pg[k], mv[k][r], r - 1, 1, In.sf))
                        \cup F("C29:met", WithinTol(pg[1], -1, FALSE, tol) => M = 0)
                        \cup F("C29:planned", M <= 100 /\ (M < 100 => \/ AtMost(pg[M + 1], -1, FALSE, tol + 1) \/ TotalLoad(pg[1], Loads(pg[1], -1, FALSE)) = 0
                                                       \/ MayStagnate([j \in 1..(M + 1) |-> Imb(pg[j], -1, FALSE)]) \/ ~WCanMove(pg[M + 1], 1, In.sf)))
                        \cup F("C29:told", LET x == Imb(pg[M + 1], -1, FALSE) IN i \in DOMAIN Out[1].tells /\ Len(Out[1].tells[i].i) = 1 /\ x[2] > 0 =>
                                             LET y == (x[1] * NR * 1000) \div x[2] IN Out[1].tells[i].i[1] \in (y - 1)..(y + 1))
                        \cup F("C29:direction", \A k \in 1..m : PartDirOK(seq[b + k], Z, plans[b + k], t, rest(k - 1)))
                        \cup F("C29:amount", \A k \in 1..m : PartAmountOK(seq[b + k], plans[b + k], t, p.d, rest(k - 1)))
                        \cup F("C29:progress", (free /\ In.cut = 0 /\ b + m < In.it /\ m < In.itt) =>
                              (AtMost(seq[b + m + 1], p.d, gh, p.tol) \/ TotalLoad(Z, Loads(Z, p.d, gh)) = 0
                               \/ MayStagnate([j \in 1..(m + 1) |-> Imb(seq[b + j], p.d, gh)]) \/ ~PartCanMove(seq[b + m + 1], Z, t, rest(m))))
                   tells == Out[1].tells
                   begun == {i \in 1..Len(In.pri) : i = 1 \/ before(i) < In.it}
               IN F("C29:steps", sound) \cup F("C29:told", [i \in DOMAIN tells |-> tells[i].d] = [i \in 1..Cardinality(begun) |-> In.pri[i].d] /\ \A i \in DOMAIN tells : Len(tells[i].i) = 1)
                  \cup (IF sound THEN UNION {bad(i) : i \in {i \in 1..Len(In.pri) : (i = 1 \/ before(i) < In.it) /\ In.pri[i].d + 1 <= G.nt /\ (gh => \A k \in (before(i) + 1)..(upto(i) + 1) : GhostsKnown(seq[k]))}} ELSE {})
      c25 == IF ~same \/ local # {} THEN {} ELSE
                F("C25:boundary", \A k \in 1..K : BoundaryOK(seq[k], plans[k]))
                \cup F("C25:whole", \A k \in 1..K : st[k] = 1 => WholeOK(seq[k], plans[k]))
                \cup F("C25:reach", \A k \in 1..K : ReachOK(seq[k], plans[k]))
                \cup F("C25:growth", In.mincon <= 1 => \A k \in 1..K : GrowthOK(seq[k], plans[k], In.cut))
      c26 == IF In.talk = 0 \/ ~same THEN {} ELSE Tag("C26", TalkBad(G0, Out[1].say, seq, st, plans, K, In, In.ghosts = 1))
      \* what is told at the third level; amounts that are wrong while the boundary and the loads are right are not those of the run either
      levels == IF In.talk = 0 \/ In.verb < 3 \/ NR = 1 \/ ~same \/ local # {} \/ c26 # {} \/ (\E k \in 1..K : st[k] \notin 1..Len(In.pri)) THEN {} ELSE
                  LET gh == In.ghosts = 1
                      b(i) == Cardinality({k \in 1..K : st[k] < i})
                      js(i) == {j \in DOMAIN Out[1].part : Out[1].part[j].st = i}
                      sound == \A r \in 1..NR : Len(Out[r].part) = Len(Out[1].part)
                      rest0(i) == LET mv == TLCEval([k \in 1..Cardinality(js(i)) |-> [r \in 1..NR |-> Out[r].part[SetMin(js(i)) - 1 + k].plan]])
                                  IN TLCEval([r \in Ranks(G) |-> [q \in Ranks(G) |-> PartPlan(mv, r, q)]])
                      Rest(i, k) == PartRest(seq, plans, b(i), k, In.pri[i].d, rest0(i))
                  IN IF In.pwb = 1 /\ (~sound \/ In.mincon > 1) THEN {} ELSE LevelsBad(Out[1].levels, Out[1].say, seq, st, K, In, gh, Rest)
      told == Tag("C26", levels) \cup F("C13:told", "targets" \in levels => In.pwb = 1) \cup F("C29:amounts", "targets" \in levels => In.pwb = 0)
      c30 == IF In.talk = 0 \/ ~same THEN {} ELSE Tag("C30", TimesBad(Out[1].took, Out[1].say, K, In, NR))
      enough == F("C11:enough", \A k \in 1..K : st[k] \in 1..Len(In.pri) => LET p == In.pri[st[k]] IN (In.ghosts = 1 => GhostsKnown(seq[k])) => ~WithinTol(seq[k], p.d, In.ghosts = 1, p.tol))
      worse == F("C11:stagnation", \A k \in 3..K : LET p == In.pri[st[k]] IN
                  st[k] \in 1..Len(In.pri) /\ st[k - 2] = st[k] /\ (In.ghosts = 1 => \A j \in (k - 2)..k : GhostsKnown(seq[j]))
                  => ~MustStagnate([j \in 1..3 |-> Imb(seq[k - 3 + j], p.d, In.ghosts = 1)]))
  IN Shown("balance", GK, HasP, local \cup lim \cup noop \cup enough \cup worse \cup c12 \cup c13 \cup c29 \cup c25 \cup c26 \cup told \cup c30, IF K > 0 THEN Fresh ELSE Moved)

(* ------------------------------------------------------------------- queues *)
QueueEv == IsEvent("queue") /\
  LET qs(r) == [i \in DOMAIN Out[r].q |-> Out[r].q[i]]
      ok(r) == IF G.hy THEN LET ids == [i \in DOMAIN qs(r) |-> qs(r)[i][2]]
                                cut == {e.id : e \in {e \in Held(G, 1, r - 1) : IsCut(G, e)}}
                            IN Ran(ids) = cut /\ Len(ids) = Cardinality(cut)
               ELSE Uniq(qs(r)) /\ Len(qs(r)) = Cardinality({e \in Held(G, 1, r - 1) : IsCut(G, e)}) 
                    /\ \A i \in DOMAIN qs(r) : qs(r)[i][3] = 1
      order(r) == (G.hy /\ In.dist = 1) => QueueOrderOK(G, r - 1, [i \in DOMAIN qs(r) |-> qs(r)[i][2]])
  IN Quiet(F("C19:once", \A r \in 1..NR : ok(r)) \cup F("C19:order", (\A r \in 1..NR : ok(r)) => \A r \in 1..NR : order(r)), G, aux)

(* ------------------------------------------------------------------ metrics *)
EvalEv == IsEvent("eval") /\ Quiet({"C17:" \o b : b \in EvalBad(G, Out[1].e)}, G, aux)
StatsEv == IsEvent("stats") /\ Quiet({"C17:" \o b : b \in StatsBad(G, Out[1].s)}, G, aux)
(* the status of a graph with two vertices per process and In.cnt[r][t] edges of type t between them *)
BigStatsEv == IsEvent("bigstats") /\
  LET sum(t) == SumOver(1..NR, [r \in 1..NR |-> In.cnt[r][t]])
      e == [t \in 1..In.nt |-> sum(t)]
      s == Out[1].s
      ok(x, v) == Len(x) > 0 /\ \A i \in DOMAIN x : x[i] = v
  IN Quiet(F("C17:status", s.ok = 1 /\ ok(s.hy, In.hy) /\ ok(s.v, 2 * NR) /\ ok(s.e, e) /\ IF In.hy = 1 THEN ok(s.p, [t \in 1..In.nt |-> 2 * e[t]]) ELSE s.p = <<>>), G, aux)
ImbEv == IsEvent("imb") /\ Quiet({"C17:" \o b : b \in ImbBad(G, Out, In.ghosts = 1)}, G, aux)

(* ----------------------------------------------------------------- pictures *)
VtkEv == IsEvent("vtk") /\
  LET bad == UNION {PieceBad(G, Out[r].p, Out[r].d, r - 1, In.t, In.id, TagState(r)) : r \in 1..NR} \cup ListBad(G, Out[1].pd, NR, In.name, In.t, In.id)
  IN Shown("proj", G, HasP, Tag("C24", bad), aux)

(* ------------------------------------------- phases, collectives, switching *)
Part == {r \in 1..NR : "skip" \notin DOMAIN Out[r]}     \* the processes that took part
Act(r) == aux.act[r]
CommOf(name) == IF name = "world" THEN [r \in 1..NR |-> World(NR)]
                ELSE IF name = "self" THEN [r \in 1..NR |-> <<r - 1>>] ELSE aux.comms[name]
OrderEv == IsEvent("order") /\ Quiet({}, G, [aux EXCEPT !.ordered = In.on = 1])
PhaseEv == IsEvent("phase") /\
  LET ok == \A r \in Part : PhaseOK(Act(r), r - 1, In.sends, Out[r].rec, aux.ordered)
      pkOf(r) == Out[r + 1].pk
      sz == F("C09:sizes", \A r \in Part : SizesOK(Act(r), r - 1, In.sends, pkOf, Out[r].rv, In.mode # "d"))
      world == \A r \in Part : Len(Act(r)) = NR
  IN Quiet(F("C09:phase", ok) \cup (IF ok THEN sz ELSE {}) \cup (IF world THEN {} ELSE F("C20:phase", ok)), G, aux)
CollEv == IsEvent("coll") /\
  LET ok == \A r \in Part : Out[r].v = CollResult(In.f, Act(r), In.v, r - 1)
      world == \A r \in Part : Len(Act(r)) = NR
  IN Quiet(F("C10:" \o In.f, ok) \cup (IF world THEN {} ELSE F("C20:collective", ok)), G, aux)
BarrierEv == IsEvent("barrier") /\
  LET ok == \A r \in Part : BarrierOK(Act(r), Out) IN Quiet(F("C10:barrier", ok), G, aux)
CommSplitEv == IsEvent("commsplit") /\
  LET base == CommOf(In.base)
      new == [r \in 1..NR |-> IF r \in Part THEN SplitOf(base[r], In.ck, r - 1) ELSE <<>>]
      ok == \A r \in Part : Out[r].n = Len(new[r]) /\ Out[r].r = IF new[r] = <<>> THEN -1 ELSE PosIn(new[r], r - 1)
  IN Quiet(F("C20:split", ok), G, [aux EXCEPT !.comms = (In.name :> new) @@ @])
Numbers(r, M) == Out[r].self = PosIn(M, r - 1) /\ Out[r].rank = PosIn(M, r - 1) /\ Out[r].peers = Len(M) /\ Out[r].size = Len(M)
SwitchEv == IsEvent("switch") /\
  LET act == [r \in 1..NR |-> IF r \in Part THEN CommOf(In.to[r])[r] ELSE Act(r)]
  IN Quiet(F("C20:switch", \A r \in Part : Numbers(r, act[r])) \cup IF In.how >= 2 THEN F("C18:switch", \A r \in Part : Numbers(r, act[r])) ELSE {}, G, [aux EXCEPT !.act = act])
InfoEv == IsEvent("info") /\
  Quiet(F("C20:info", \A r \in Part : Numbers(r, Act(r)) /\ Out[r].pself = Out[r].self /\ Out[r].ppeers = Out[r].peers /\ Out[r].mrank = PosIn(Act(r), r - 1) /\ Out[r].msize = Len(Act(r))), G, aux)
(* the application's own messages, sent on its own communicators: <<comm, from, to, tag, value>> in order *)
AppSendEv == IsEvent("appsend") /\
  LET of(r) == [i \in DOMAIN In.s[r] |-> <<In.name, PosIn(CommOf(In.name)[r], r - 1), r - 1, CommOf(In.name)[r][In.s[r][i][1] + 1], In.s[r][i][2], In.s[r][i][3]>>]
      RECURSIVE all(_)
      all(r) == IF r = 0 THEN <<>> ELSE all(r - 1) \o (IF r \in Part THEN of(r) ELSE <<>>)
  IN Quiet({}, G, [aux EXCEPT !.pend = @ \o all(NR)])
AppRecvEv == IsEvent("apprecv") /\
  LET for(r) == LET P(x) == x[1] = In.name /\ x[4] = r - 1 IN SelectSeq(aux.pend, P)
      RECURSIVE take(_, _, _)
      take(q, wants, got) ==      \* the messages taken one by one, each the first that matches <<from, tag>>
        IF wants = <<>> THEN got
        ELSE LET w == Head(wants)
                 is == {i \in DOMAIN q : q[i][2] = w[1] /\ q[i][5] = w[2]}
                 i == SetMin(is)
             IN take(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)), Tail(wants), Append(got, q[i][6]))
      P(x) == ~(x[1] = In.name /\ x[4] + 1 \in Part)
  IN Quiet(F("C20:application", \A r \in Part : Out[r].v = take(for(r), In.w[r], <<>>)), G, [aux EXCEPT !.pend = SelectSeq(@, P)])

(* ---------------------------------------------------------------------------- *)
Init == l = 1 /\ G = EmptyG(1) /\ aux = NoAux
Next == \/ CaseEv \/ EndEv \/ InitEv \/ FiniEv \/ LeftEv \/ LogEv \/ LogReadEv \/ CorruptEv \/ MsgEv \/ WPlanEv \/ PcuIoEv \/ DebugEv \/ TimersEv \/ SkipEv
        \/ ConstructEv \/ BinFileEv \/ BinLoadEv \/ SplitEv \/ EmptyEv \/ ProjEv \/ ValidEv
        \/ CoordsEv \/ SetWEv \/ SetEWEv \/ RemoveEv \/ AddEv \/ SetOrigEv \/ SetOrigVEv \/ ResetOwnEv \/ ResetPartEv
        \/ TagsEv \/ GTagEv \/ GhostGetEv \/ AdjEv
        \/ WMigEv \/ WBalEv \/ BalanceEv \/ QueueEv \/ EvalEv \/ StatsEv \/ BigStatsEv \/ ImbEv \/ VtkEv
        \/ OrderEv \/ PhaseEv \/ CollEv \/ BarrierEv \/ CommSplitEv \/ SwitchEv \/ InfoEv \/ AppSendEv \/ AppRecvEv
        \/ MigrateEv \/ RepartEv \/ GetPartEv \/ SaveEv \/ LoadEv
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("DONE")
=============================================================================
