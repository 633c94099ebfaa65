------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Successful paths of a machine, one by one: path enumeration, k-best     *)
(* path weights, membership of a labelled weighted path.                   *)
(***************************************************************************)
EXTENDS Weighted

NonEps(u) == SelectSeq(u, LAMBDA x : x # 0)
\* all successful paths from q of an acyclic machine, as a sequence of <<istring, ostring, weight>>
RECURSIVE PathsFrom(_, _, _)
PathsFrom(F, sr, q) ==
  (IF IsFinal(F, q) THEN << <<<<>>, <<>>, FinalW(F, sr, q)>> >> ELSE <<>>)
  \o FlattenSeq([i \in 1 .. Len(Arcs(F, q)) |->
       LET t == Arcs(F, q)[i]
           sub == PathsFrom(F, sr, NS(t))
       IN  [j \in 1 .. Len(sub) |-> <<(IF IL(t) = 0 THEN <<>> ELSE <<IL(t)>>) \o sub[j][1],
                                       (IF OL(t) = 0 THEN <<>> ELSE <<OL(t)>>) \o sub[j][2],
                                       Mul(sr, WT(t), sub[j][3])>>]])
AllPaths(F, sr) == IF F.s = -1 THEN <<>> ELSE PathsFrom(F, sr, F.s)
\* acyclic as far as the start reaches
AccAcyclic(F) == \A q \in AccStates(F) : ~OnCycle(F, q)

SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)
Take(s, k) == SubSeq(s, 1, MinI(k, Len(s)))

\* the k smallest weights of successful paths from each state ("trop", weights >= 0): least fixpoint
KStep(F, k, K) ==
  TLCEval([q \in States(F) |->
     Take(SortInts((IF IsFinal(F, q) /\ F.f[q + 1][1] # TINF THEN <<F.f[q + 1][1]>> ELSE <<>>)
            \o FlattenSeq([i \in 1 .. Len(Arcs(F, q)) |->
                 LET t == Arcs(F, q)[i] IN
                 IF WT(t) = TINF THEN <<>> ELSE [j \in 1 .. Len(K[NS(t)]) |-> WT(t) + K[NS(t)][j]]])), k)])
RECURSIVE KFix(_, _, _)
KFix(F, k, K) == LET N == KStep(F, k, K) IN IF N = K THEN K ELSE KFix(F, k, N)
KBest(F, k) == IF F.s = -1 THEN <<>> ELSE KFix(F, k, [q \in States(F) |-> <<>>])[F.s]

\* is there a successful path of F labelled x:y with weight exactly w ("trop", weights >= 0)?
RECURSIVE ConfClose(_, _, _, _, _, _)
ConfClose(F, x, y, w, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == UNION {
             {<<NS(t), c[2] + (IF IL(t) = 0 THEN 0 ELSE 1), c[3] + (IF OL(t) = 0 THEN 0 ELSE 1), c[4] + WT(t)>> :
                t \in {Arcs(F, c[1])[i] : i \in {j \in 1 .. Len(Arcs(F, c[1])) :
                   LET u == Arcs(F, c[1])[j] IN
                   /\ WT(u) # TINF
                   /\ IL(u) = 0 \/ (c[2] < Len(x) /\ x[c[2] + 1] = IL(u))
                   /\ OL(u) = 0 \/ (c[3] < Len(y) /\ y[c[3] + 1] = OL(u))
                   /\ c[4] + WT(u) <= w}}} : c \in front} \ seen
       IN  ConfClose(F, x, y, w, seen \cup nx, nx)
HasPath(F, x, y, w) ==
  F.s # -1 /\ LET C == ConfClose(F, x, y, w, {<<F.s, 0, 0, 0>>}, {<<F.s, 0, 0, 0>>}) IN
  \E c \in C : c[2] = Len(x) /\ c[3] = Len(y) /\ IsFinal(F, c[1]) /\ c[4] + F.f[c[1] + 1][1] = w

\* best weight per input string of an acyclic acceptor, as the sorted sequence of the k best
UniqueBest(F, k) ==
  LET R == WRel(F, "trop", NumStates(F) + 1)
      ks == SetToSeq(DOMAIN R)
  IN  Take(SortInts([i \in 1 .. Len(ks) |-> R[ks[i]]]), k)

SPOps == {"shortest_path"}
SPClauses(e, ins) ==
  LET F == ins[1]  ok == e.k = "ok"
      lin == ok /\ WellFormed(e.v) /\ AccAcyclic(e.v)
      ps == IF lin THEN TLCEval(AllPaths(e.v, "trop")) ELSE <<>>
      ws == TLCEval(SortInts([i \in 1 .. Len(ps) |-> ps[i][3]]))
  IN
  {MustSucceed(e), WF(e),
   Chk("acyclic", ok, lin),
   Chk("nbest", lin /\ ~e.uniq, ws = KBest(F, e.n)),
   Chk("paths", lin, \A i \in 1 .. Len(ps) : HasPath(F, ps[i][1], ps[i][2], ps[i][3])),
   Chk("unique-best", lin /\ e.uniq, ws = UniqueBest(F, e.n)),
   Chk("unique-distinct", lin /\ e.uniq, \A i, j \in 1 .. Len(ps) : i # j => ps[i][1] # ps[j][1])}
=============================================================================
