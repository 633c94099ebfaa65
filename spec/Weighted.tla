------------------------------ MODULE Weighted ------------------------------
(***************************************************************************)
(* Operations that move weights and labels along paths, or remove epsilon  *)
(* moves, without changing the weighted relation.                          *)
(***************************************************************************)
EXTENDS Distance

ScaleRel(sr, R, w) == TLCEval([p \in DOMAIN R |-> Mul(sr, R[p], w)])

\* Outgoing weight of q towards states of U, final weight included.
OutSum(F, sr, q, U) ==
  Add(sr, FinalW(F, sr, q),
      FoldLeft(LAMBDA acc, t : IF NS(t) \in U THEN Add(sr, acc, WT(t)) ELSE acc, Zero(sr), Arcs(F, q)))
Stochastic(F, sr) ==
  LET U == UsefulStates(F) IN \A q \in U \ {F.s} : WEq(sr, OutSum(F, sr, q, U), One(sr))
\* every useful state is reached with total weight one (idempotent case)
FwdNormal(F, sr) ==
  LET D == TLCEval(FwdDist(F, sr)) IN \A q \in UsefulStates(F) : D[q] = One(sr)

\* R is R2 with the output affix u put back (prefix or suffix), as far as L reaches
PutBack(side, u, y) == IF side = "initial" THEN u \o y ELSE y \o u
HasAffix(side, u, y) == IF side = "initial" THEN IsPrefix(u, y) ELSE IsSuffix(u, y)
Strip(side, u, y) == IF side = "initial" THEN SubSeq(y, Len(u) + 1, Len(y)) ELSE SubSeq(y, 1, Len(y) - Len(u))
SameModAffix(sr, side, R, R2, L) ==
  \/ DOMAIN R = {} /\ DOMAIN R2 = {}
  \/ \E u \in UNION {{PutBack(side, SubSeq(p[2], 1, n), <<>>) : n \in 0 .. Len(p[2])}
                     \cup {SubSeq(p[2], n + 1, Len(p[2])) : n \in 0 .. Len(p[2])} : p \in DOMAIN R} :
       /\ \A p \in DOMAIN R : 
             \/ WEq(sr, R[p], Zero(sr))
             \/ HasAffix(side, u, p[2]) /\ WEq(sr, R[p], RelAt(sr, R2, <<p[1], Strip(side, u, p[2])>>))
       /\ \A p \in DOMAIN R2 : Len(p[2]) + Len(u) > L \/ WEq(sr, R2[p], RelAt(sr, R, <<p[1], PutBack(side, u, p[2])>>))
\* an output of length > L in R may hide every witness; only claim when R shows one
SomeShort(R) == DOMAIN R # {}

WeightedOps == {"rm_epsilon", "push_weights", "push", "reweight"}
WeightedClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "ok"  L == LOf(e) IN
  CASE e.op = "rm_epsilon" ->
         {MustSucceed(e), WF(e), SameRelAs(e, F),
          Chk("noeps", ok /\ F.s # -1, NoEps(e.v)),
          Chk("trim", ok /\ F.s # -1 /\ e.via = "static", Connected(e.v))}
    [] e.op = "push_weights" ->
         {MustSucceed(e), WF(e),
          Chk("rel", ok /\ ~e.rt, SameRel(e.v, F, sr, L)),
          Chk("rel-total", ok /\ e.rt, LET T == TotalWeight(F, sr) IN
                 T \in {UNDEF, Zero(sr)} \/ RelEq(sr, WRel(F, sr, L), ScaleRel(sr, WRel(e.v, sr, L), T))),
          Chk("stochastic", ok /\ e.to = "initial", Stochastic(e.v, sr)),
          Chk("total-one", ok /\ e.rt, TotalWeight(F, sr) \in {UNDEF, Zero(sr)} \/ WEq(sr, TotalWeight(e.v, sr), One(sr))),
          Chk("normal", ok /\ e.to = "final" /\ sr = "trop", FwdNormal(e.v, sr))}
    [] e.op = "push" ->
         {MustSucceed(e), WF(e),
          Chk("rel", ok /\ ~e.rt /\ ~e.ra, SameRel(e.v, F, sr, L)),
          Chk("rel-removed", ok /\ (e.rt \/ e.ra) /\ F.s # -1,
              LET T == IF e.rt THEN TotalWeight(F, sr) ELSE One(sr)
                  R == WRel(F, sr, L)
                  R2 == WRel(e.v, sr, L) IN
              T \in {UNDEF, Zero(sr)} \/ DOMAIN R = {} \/
              IF e.ra THEN SameModAffix(sr, e.to, R, ScaleRel(sr, R2, T), L)
              ELSE RelEq(sr, R, ScaleRel(sr, R2, T)))}
    [] e.op = "reweight" ->
         {MustSucceed(e), WF(e), SameRelAs(e, F)}
=============================================================================
