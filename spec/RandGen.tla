------------------------------ MODULE RandGen -------------------------------
(***************************************************************************)
(* Random path generation.  The draws are nondeterministic: any outcome    *)
(* made of at most npath successful paths of the input, of bounded length, *)
(* is allowed; which outcomes are not is what these clauses say.           *)
(***************************************************************************)
EXTENDS Queues

\* all successful paths of an acyclic machine: sequence of <<label pairs, weight>>
RECURSIVE DrawnFrom(_, _, _, _, _)
DrawnFrom(O, sr, q, ls, w) ==
  LET here == IF IsFinal(O, q) THEN <<<<ls, Mul(sr, w, FinalW(O, sr, q))>>>> ELSE <<>> IN
  FoldLeft(LAMBDA acc, t : acc \o DrawnFrom(O, sr, NS(t), Append(ls, <<IL(t), OL(t)>>), Mul(sr, w, WT(t))), here, Arcs(O, q))
DrawnPaths(O, sr) == IF O.s = -1 THEN <<>> ELSE DrawnFrom(O, sr, O.s, <<>>, One(sr))
\* states of F reachable by exactly these transition labels
StepSet(F, S, l) == {NS(t) : t \in {u \in UNION {Range(Arcs(F, q)) : q \in S} : IL(u) = l[1] /\ OL(u) = l[2]}}
Spells(F, ls) == LET S == FoldLeft(LAMBDA acc, l : StepSet(F, acc, l), {F.s}, ls) IN \E q \in S : IsFinal(F, q)
DeadEnd(F) == \E q \in AccStates(F) : ~IsFinal(F, q) /\ Arcs(F, q) = <<>>
Targets(O) == UNION {{NS(Arcs(O, q)[i]) : i \in 1 .. Len(Arcs(O, q))} : q \in States(O)}
\* every state but the start has exactly one predecessor, the start none, and all are reached
Tree(O) ==
  /\ O.s # -1
  /\ Targets(O) = States(O) \ {O.s}
  /\ FoldLeft(LAMBDA acc, x : acc + Len(x), 0, O.a) = NumStates(O) - 1
  /\ AccStates(O) = States(O)
SumW(ps) == FoldLeft(LAMBDA acc, p : acc + p[2], 0, ps)
NearTo(x, y) == AbsI(x - y) <= 4000

RandGenClauses(e, ins) ==
  LET F == ins[1] ok == e.k = "ok"
      tree == ok /\ WellFormed(e.v) /\ (e.v.s = -1 \/ Tree(e.v))
      ps == IF tree THEN TLCEval(DrawnPaths(e.v, e.sr)) ELSE <<>>
      exact == tree /\ e.max = -1 /\ ~DeadEnd(F) /\ F.s # -1
  IN {MustSucceed(e), WF(e),
      Chk("tree", ok, tree),
      Chk("paths-of-input", tree /\ F.s # -1, \A i \in 1 .. Len(ps) : Spells(F, ps[i][1])),
      Chk("nothing-from-nothing", ok /\ F.s = -1, ps = <<>>),
      Chk("length-limit", tree /\ e.max >= 0, \A i \in 1 .. Len(ps) : Len(ps[i][1]) <= e.max),
      Chk("at-most", tree, Len(ps) <= e.n),
      Chk("count", exact /\ ~e.weighted /\ ~IsFinal(F, F.s), Len(ps) = e.n),
      Chk("count-empty", exact /\ ~e.weighted /\ IsFinal(F, F.s) /\ e.n > 0, Len(ps) >= 1),
      Chk("unit-weights", tree /\ ~e.weighted, \A i \in 1 .. Len(ps) : WEq(e.sr, ps[i][2], One(e.sr))),
      Chk("total-weight", exact /\ e.weighted /\ e.n > 0, NearTo(SumW(ps), IF e.total THEN RS ELSE e.n * RS)),
      Chk("path-counts", tree /\ e.weighted /\ ~e.total,
          \A i \in 1 .. Len(ps) : \E k \in 1 .. e.n : NearTo(ps[i][2], k * RS)),
      \* every successful path of a small machine shows up among many draws
      Chk("support", tree /\ e.full, {ps[i][1] : i \in 1 .. Len(ps)} = {p[1] : p \in Range(DrawnPaths(F, e.sr))}),
      Chk("reproducible", ok, e.again = "" \/ e.again = "same")}
=============================================================================
