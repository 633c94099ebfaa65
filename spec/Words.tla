------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Machines over non-commutative weights.  A weight is a sequence of       *)
(* alternatives <<string, cost>> (none: zero), the product concatenates    *)
(* strings and adds costs in path order, and a machine denotes the         *)
(* tropical transduction from its labels to the strings its weights spell  *)
(* (GExpand): an operation which multiplied two weights in the wrong order *)
(* would relate an input to a differently ordered string.                  *)
(* Sums: gallic weights keep the cheapest cost of every string; left       *)
(* (right) string weights keep the longest common prefix (suffix).         *)
(***************************************************************************)
EXTENDS Drawing

WordOps == {"n.same", "n.union", "n.concat", "n.closure", "n.reverse", "n.paths", "n.rmeps", "n.dist", "n.push", "n.det"}
LeftKind(k) == k \in {"sleft", "left"}
RightKind(k) == k \in {"sright", "right"}

\* sets of alternatives, cheapest cost per string
Cheapest(S) == {a \in S : \A b \in S : b[1] = a[1] => a[2] <= b[2]}
GMul(A, B) == Cheapest({<<a[1] \o b[1], a[2] + b[2]>> : a \in A, b \in B})
LCPx(S) == LET n == Min({Len(s) : s \in S}) IN
           LET x == CHOOSE x \in S : TRUE IN
           LET k == Max({0} \cup {j \in 1 .. n : \A s \in S : SubSeq(s, 1, j) = SubSeq(x, 1, j)}) IN SubSeq(x, 1, k)
LCSx(S) == LET n == Min({Len(s) : s \in S}) IN
           LET x == CHOOSE x \in S : TRUE IN
           LET k == Max({0} \cup {j \in 1 .. n : \A s \in S : SubSeq(s, Len(s) - j + 1, Len(s)) = SubSeq(x, Len(x) - j + 1, Len(x))})
           IN SubSeq(x, Len(x) - k + 1, Len(x))
\* the sum of a set of alternatives in the semiring of that kind
Total1(kind, S) ==
  IF S = {} THEN {}
  ELSE IF LeftKind(kind) THEN {<<LCPx({a[1] : a \in S}), Min({a[2] : a \in S})>>}
  ELSE IF RightKind(kind) THEN {<<LCSx({a[1] : a \in S}), Min({a[2] : a \in S})>>}
  ELSE S
\* all alternatives spelt from q to the final states / from the start to q; acyclic machines
RECURSIVE OutOf(_, _)
OutOf(G, q) == Cheapest(ToSet(G.f[q + 1]) \cup
  UNION {GMul(ToSet(G.a[q + 1][i][3]), OutOf(G, G.a[q + 1][i][4])) : i \in 1 .. Len(G.a[q + 1])})
RECURSIVE Into(_, _)
Into(G, q) == Cheapest((IF q = G.s THEN {<<<<>>, 0>>} ELSE {}) \cup
  UNION {UNION {IF G.a[p][i][4] = q THEN GMul(Into(G, p - 1), ToSet(G.a[p][i][3])) ELSE {} : i \in 1 .. Len(G.a[p])} : p \in 1 .. Len(G.a)})
\* the accepting paths with their labels and alternatives, as a sequence; acyclic machines
RECURSIVE PathsOf(_, _)
PathsOf(G, q) ==
  (IF G.f[q + 1] = <<>> THEN <<>> ELSE <<<<<<>>, ToSet(G.f[q + 1])>>>>) \o
  FlattenSeq([i \in 1 .. Len(G.a[q + 1]) |->
    LET t == G.a[q + 1][i]  ps == PathsOf(G, t[4])
    IN  [j \in 1 .. Len(ps) |-> <<IF t[1] = 0 THEN ps[j][1] ELSE <<t[1]>> \o ps[j][1], GMul(ToSet(t[3]), ps[j][2])>>]])
\* input string -> sum of all alternatives
InputRel(kind, G, L) == LET R == WRel(GExpand(G), "trop", L) IN
  [x \in {p[1] : p \in DOMAIN R} |-> Total1(kind, {<<p[2], R[p]>> : p \in {p \in DOMAIN R : p[1] = x}})]
RelPairs(G, L) == LET R == WRel(GExpand(G), "trop", L) IN {<<p, R[p]>> : p \in DOMAIN R}
Functional(G, L) == \A p, q \in DOMAIN WRel(GExpand(G), "trop", L) : p[1] = q[1] => p[2] = q[2]
GDist(G, rev, q) == IF rev THEN OutOf(G, q) ELSE Into(G, q)

WordClauses(e, ins) ==
  LET ok == e.k = "val"
      mach == ok /\ e.op \notin {"n.paths", "n.dist"}
      wf == mach /\ WellFormed(e.v)
      X == e.x[1]
      sem(R) == Chk("rel", wf, SameRel(GExpand(e.v), R, "trop", LOf(e)))
  IN {Total(e), Chk("succeeds", TRUE, ok), Chk("wf", mach, wf)} \cup
  CASE e.op = "n.same" -> {sem(GExpand(X))}
    [] e.op = "n.rmeps" -> {sem(GExpand(X)),
         Chk("no-epsilon", wf /\ X.s # -1, \A q \in 1 .. Len(e.v.a) : \A i \in 1 .. Len(e.v.a[q]) : e.v.a[q][i][1] # 0)}
    [] e.op = "n.union" -> {sem(UnionRef(GExpand(X), GExpand(e.x[2]), "trop"))}
    [] e.op = "n.concat" -> {sem(ConcatRef(GExpand(X), GExpand(e.x[2]), "trop"))}
    [] e.op = "n.closure" -> {sem(ClosureRef(GExpand(X), "trop", IF e.star THEN "star" ELSE "plus"))}
    [] e.op = "n.reverse" -> {sem(ReverseRef(GExpand(X), "trop"))}
    [] e.op = "n.push" -> IF ~e.total THEN {sem(GExpand(X))}
         ELSE LET T == IF X.s = -1 \/ ~e.acyclic THEN {} ELSE Total1(e.kind, OutOf(X, X.s)) IN
              {Chk("total-removed", wf /\ T # {}, LET t == CHOOSE t \in T : TRUE IN
                 {q \in {<<p[1][1], IF LeftKind(e.kind) THEN t[1] \o p[1][2] ELSE p[1][2] \o t[1], t[2] + p[2]>> : p \in RelPairs(e.v, LOf(e))} : Len(q[2]) <= LOf(e)}
                 = {<<p[1][1], p[1][2], p[2]>> : p \in RelPairs(X, LOf(e))})}
    [] e.op = "n.paths" -> {Chk("paths", ok, SameBag([i \in 1 .. Len(e.v) |-> <<e.v[i][1], ToSet(e.v[i][2])>>],
                                                   IF X.s = -1 THEN <<>> ELSE PathsOf(X, X.s)))}
    [] e.op = "n.dist" -> {Chk("distance", ok /\ X.s # -1, Len(e.v) <= Len(X.a) /\
         \A q \in 0 .. Len(X.a) - 1 :
           (IF q < Len(e.v) THEN ToSet(e.v[q + 1]) ELSE {}) = Total1(e.kind, GDist(X, e.rev, q)))}
    [] e.op = "n.det" -> {
         Chk("deterministic", wf, \A q \in 1 .. Len(e.v.a) : \A i, j \in 1 .. Len(e.v.a[q]) : i # j => e.v.a[q][i][1] # e.v.a[q][j][1]),
         \* merging the paths into one state needs distributivity on the right, or one output per input
         Chk("sum", wf /\ Functional(X, LOf(e)), LET Y == InputRel(e.kind, e.v, LOf(e))  Z == InputRel(e.kind, X, LOf(e)) IN Y = Z)}
=============================================================================
