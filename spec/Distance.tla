------------------------------ MODULE Distance ------------------------------
(***************************************************************************)
(* Sums over all paths of a machine: shortest distances, and the contracts *)
(* of the shortest-distance family.                                        *)
(***************************************************************************)
EXTENDS Contracts

\* total weight of the transitions p -> q, labels ignored
AdjW(F, sr, p, q) == FoldLeft(LAMBDA acc, t : IF NS(t) = q THEN Add(sr, acc, WT(t)) ELSE acc, Zero(sr), Arcs(F, p))
AdjMat(F, sr) == TLCEval([p \in States(F) |-> TLCEval([q \in States(F) |-> AdjW(F, sr, p, q)])])
\* PathSum[p][q] = sum of the weights of all paths from p to q (the empty one included)
PathSum(F, sr) == StarMat(sr, AdjMat(F, sr), NumStates(F))
FwdDist(F, sr) == IF F.s = -1 THEN [q \in States(F) |-> Zero(sr)] ELSE PathSum(F, sr)[F.s]
BwdDist(F, sr) ==
  LET P == TLCEval(PathSum(F, sr))
  IN  TLCEval([q \in States(F) |-> VecDot(sr, P[q], [j \in States(F) |-> FinalW(F, sr, j)], NumStates(F))])
TotalWeight(F, sr) == IF F.s = -1 THEN Zero(sr) ELSE BwdDist(F, sr)[F.s]

\* results list distances by state; trailing unreached states may be missing
DistAt(sr, d, q) == IF q + 1 <= Len(d) THEN d[q + 1] ELSE Zero(sr)

DistanceOps == {"shortest_distance", "all_pairs"}
DistanceClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "val" IN
  CASE e.op = "shortest_distance" ->
         {MustSucceed(e),
          Chk("size", ok, Len(e.v) <= NumStates(F)),
          Chk("dist", ok, LET D == TLCEval(IF e.rev THEN BwdDist(F, sr) ELSE FwdDist(F, sr))
                          IN  \A q \in States(F) : WEq(sr, DistAt(sr, e.v, q), D[q]))}
    [] e.op = "all_pairs" ->
         {MustSucceed(e),
          Chk("dist", ok, LET P == TLCEval(PathSum(F, sr)) IN
              /\ Len(e.v) = NumStates(F)
              /\ \A p, q \in States(F) : WEq(sr, e.v[p + 1][q + 1], P[p][q]))}
=============================================================================
