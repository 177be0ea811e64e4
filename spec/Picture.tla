------------------------------- MODULE Picture ------------------------------
(* The files written for viewers: each process writes a piece, the first also  *)
(* the list of the pieces.  Points are the process's vertices in the order of   *)
(* their local numbers, then its type 0 hyperedges, each in the middle of its   *)
(* pins, or, for directed graphs, its ghosts, so that every cell ends at a      *)
(* point of the file.  P is what the process shows of its share, D the numbers  *)
(* of its file, S the tag values it set, t the kind of entity that holds tag id. *)
EXTENDS Conform

Absolute(x) == IF x < 0 THEN -x ELSE x
TagShown(G, t, id) == id # "-1" /\ t # -2 /\ (t = -1 \/ G.hy)
DataNames(G, t, id) == {"PointData.Part"} \cup (IF G.hy THEN {"PointData.VorE"} ELSE {}) \cup (IF TagShown(G, t, id) THEN {"PointData.Tag"} ELSE {})
BagEq(s, T, f(_)) ==      \* the sequence s holds f(x) for every x of the set T, as often
  /\ Len(s) = Cardinality(T)
  /\ \A y \in {f(x) : x \in T} : Cardinality({i \in DOMAIN s : s[i] = y}) = Cardinality({x \in T : f(x) = y})

PieceBad(G, P, D, r, t, id, S) ==
  LET nl == P.nl
      le == P.le[1]
      nm == nl + IF G.hy THEN le ELSE 0                      \* points that stand for the process's own entities
      E(l) == P.E[1][CHOOSE i \in DOMAIN P.E[1] : P.E[1][i].l = l]
      lidOf(v) == IF v \in Mine(P) THEN (CHOOSE i \in DOMAIN P.V : P.V[i].g = v) - 1 ELSE P.H[CHOOSE i \in DOMAIN P.H : P.H[i].g = v].l
      ghost(l) == P.H[CHOOSE i \in DOMAIN P.H : P.H[i].l = l].g
      inside == \A i \in DOMAIN D.conn : \A k \in 1..2 : D.conn[i][k] \in 0..(D.np - 1)
      middle(e, at) == \A j \in 1..3 : Absolute(at[j] * e.d - SumSeq([k \in DOMAIN e.p |-> G.c[e.p[k]][j]])) <= e.d + 1
      held == 0..(le - 1)
      pinsOf == UNION {{<<l, v>> : v \in Ran(E(l).p) \cap Mine(P)} : l \in held}
      hcell(x) == <<nl + x[1], lidOf(x[2])>>
      dcell(l) == <<G.c[E(l).p[1]], G.c[E(l).p[2]]>>
      lines == /\ BagEq([i \in DOMAIN D.conn |-> <<D.pts[D.conn[i][1] + 1], D.pts[D.conn[i][2] + 1]>>], held, dcell)
               /\ \A i \in DOMAIN D.conn : D.conn[i][1] < nl      \* edges leave the process's own vertices; only cut ones end elsewhere
               /\ \A i \in DOMAIN D.conn : D.conn[i][2] >= nl =>
                    \E l \in held : dcell(l) = <<D.pts[D.conn[i][1] + 1], D.pts[D.conn[i][2] + 1]>> /\ E(l).p[2] \notin Mine(P)
      tagOf(k) == LET key == IF k < nl THEN <<id, P.V[k + 1].g>> ELSE <<id, E(k - nl).g>> IN IF key \in DOMAIN S THEN S[key] ELSE "unset"
  IN IF D.ok = 0 THEN {"file"}
     ELSE F("names", Ran(D.names) = {"Points.Points", "Cells.connectivity", "Cells.offsets", "Cells.types"} \cup DataNames(G, t, id) /\ Uniq(D.names))
     \cup F("points", /\ Len(D.pts) = D.np /\ D.np >= nm /\ (G.hy => D.np = nm)
                      /\ \A i \in 1..nl : D.pts[i] = G.c[P.V[i].g]
                      /\ G.hy => \A l \in held : middle(E(l), D.pts[nl + l + 1]))
     \cup F("cells", /\ Len(D.conn) = D.nc /\ Len(D.off) = D.nc /\ Len(D.ty) = D.nc /\ inside
                     /\ \A i \in 1..D.nc : D.off[i] = 2 * i /\ D.ty[i] = 3
                     /\ IF G.hy THEN BagEq(D.conn, pinsOf, hcell)
                        ELSE (inside /\ D.np <= Len(D.pts)) => lines)
     \cup F("part", /\ Len(D.part) = D.np
                    /\ \A i \in 1..nm : D.part[i] = r
                    /\ \A i \in (nm + 1)..D.np : \E v \in Gids(P.H) : D.pts[i] = G.c[v] /\ D.part[i] = G.own[v])
     \cup F("kind", D.kind = IF G.hy THEN [i \in 1..nm |-> Bit(i > nl)] ELSE <<>>)
     \cup F("tag", IF ~TagShown(G, t, id) THEN D.tag = <<>>
                   ELSE /\ Len(D.tag) = D.np
                        /\ \A i \in 1..D.np : D.tag[i] = IF (i <= nl /\ t = -1) \/ (i > nl /\ i <= nm /\ t = 0) THEN tagOf(i - 1) ELSE "-1")
ListBad(G, D, n, name, t, id) ==
  IF D.ok = 0 THEN {"list"}
  ELSE F("list", /\ D.src = [i \in 1..n |-> name \o ToString(i - 1) \o ".vtu"]
                 /\ Ran(D.names) = {"Points.Points"} \cup DataNames(G, t, id) /\ Uniq(D.names))
=============================================================================
