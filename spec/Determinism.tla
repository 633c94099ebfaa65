---------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* Determinization and minimization.                                       *)
(***************************************************************************)
EXTENDS Paths

InputsOf(R) == {p[1] : p \in DOMAIN R}
OutputsAt(R, x) == {p[2] : p \in {q \in DOMAIN R : q[1] = x}}
\* one output per input, as far as R shows
FunctionalRel(R) == \A x \in InputsOf(R) : Cardinality(OutputsAt(R, x)) = 1
\* at most one transition per state and proper input label
IDetProper(F) == \A q \in States(F) : \A i, j \in 1 .. Len(Arcs(F, q)) :
                    (i # j /\ IL(Arcs(F, q)[i]) # 0) => IL(Arcs(F, q)[i]) # IL(Arcs(F, q)[j])
\* a best output per input ("trop")
BestOutput(R, R2) ==
  /\ InputsOf(R) = InputsOf(R2)
  /\ FunctionalRel(R2)
  /\ \A p \in DOMAIN R2 : /\ p \in DOMAIN R /\ R2[p] = R[p]
                          /\ \A y \in OutputsAt(R, p[1]) : R[<<p[1], y>>] >= R2[p]

----------------------------------------------------------------------------
(* The weighted subset construction of a "trop" acceptor: the residual      *)
(* subsets reachable from {<<start, 0>>}, as far as bound of them.           *)
Successors(F, S) ==
  LET dests == {<<IL(t), NS(t), r[2] + WT(t)>> : <<r, t>> \in
                  UNION {{<<r, Arcs(F, r[1])[i]>> : i \in 1 .. Len(Arcs(F, r[1]))} : r \in S}}
  IN  {LET D == {d \in dests : d[1] = l}
           m == Min({d[3] : d \in D})
       IN  {<<q, Min({d[3] : d \in {x \in D : x[2] = q}}) - m>> : q \in {d[2] : d \in D}}
         : l \in {d[1] : d \in dests}}
RECURSIVE Subsets(_, _, _, _)
Subsets(F, seen, front, bound) ==
  IF front = {} \/ Cardinality(seen) >= bound THEN Cardinality(seen)
  ELSE LET nx == TLCEval(UNION {Successors(F, S) : S \in front} \ seen)
       IN  Subsets(F, TLCEval(seen \cup nx), nx, bound)
SubsetCount(F, bound) == IF F.s < 0 THEN 0 ELSE Subsets(F, {{<<F.s, 0>>}}, {{<<F.s, 0>>}}, bound)
FiniteWeights(F) == \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) : WT(Arcs(F, q)[i]) < TINF

DetClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "ok"  L == LOf(e)
      acc == Acceptor(F)
      R == TLCEval(WRel(F, sr, L))
      fun == TLCEval(acc \/ FunctionalRel(R))
  IN
  {Total(e), WF(e),
   Chk("succeeds", acc \/ e.ty # "fun", ok),
   \* failures only for machines that are not functional (dead states may carry the conflict)
   Chk("err-only-ambiguous", e.k = "err" /\ AccStates(F) \subseteq CoAccStates(F), ~fun),
   Chk("ambiguous-err", e.ty = "fun" /\ ~fun /\ NoIEps(F), e.k = "err"),
   Chk("rel", ok /\ (e.ty # "dis" \/ acc), RelEq(sr, WRel(e.v, sr, L), R)),
   Chk("best", ok /\ e.ty = "dis" /\ ~acc /\ NoIEps(F), BestOutput(R, WRel(e.v, sr, L))),
   Chk("det", ok /\ acc, IDetProper(e.v)),
   \* every residual subset is one state
   Chk("subset-size", ok /\ acc /\ sr = "trop" /\ FiniteWeights(F),
       NumStates(e.v) <= SubsetCount(F, NumStates(e.v))),
   Chk("det-fst", ok /\ ~acc, IDetProper(e.v)),
   Chk("det-eps", ok /\ acc /\ e.acc, IDeterministic(e.v))}
\* determinization that carries the distances to the final states along: e.v = [m |-> machine, d |-> distances]
DetDistClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "val"  L == LOf(e) IN
  {MustSucceed(e),
   Chk("wf", ok, WellFormed(e.v.m)),
   Chk("rel", ok /\ WellFormed(e.v.m), RelEq(sr, WRel(e.v.m, sr, L), WRel(F, sr, L))),
   Chk("det", ok /\ WellFormed(e.v.m), IDetProper(e.v.m)),
   Chk("distances", ok /\ WellFormed(e.v.m),
       LET D == BwdDist(e.v.m, sr) IN Len(e.v.d) = NumStates(e.v.m) /\ \A q \in States(e.v.m) : WEq(sr, e.v.d[q + 1], D[q]))}

----------------------------------------------------------------------------
(* Minimization.  States of a trimmed, input-deterministic "trop" acceptor  *)
(* are equivalent iff their residual weighted languages agree once the best *)
(* remaining weight is factored out (canonical pushing): Moore refinement.  *)
Canon(F) ==
  LET U == UsefulStates(F)
      d == BwdDist(F, "trop")
      \* the total weight stays on the start state, unless the start state is re-entered
      keep(q) == IF q = F.s /\ ~OnCycle(F, F.s) THEN 0 ELSE d[q]
  IN  [U |-> U,
       extra |-> IF U # {} /\ OnCycle(F, F.s) /\ d[F.s] # 0 THEN 1 ELSE 0,
       fin |-> [q \in U |-> IF IsFinal(F, q) THEN <<F.f[q + 1][1] - keep(q)>> ELSE <<>>],
       arcs |-> [q \in U |-> {<<IL(t), WT(t) + d[NS(t)] - keep(q), NS(t)>> : t \in
                   {Arcs(F, q)[i] : i \in {j \in 1 .. Len(Arcs(F, q)) : NS(Arcs(F, q)[j]) \in U}}}]]
RECURSIVE Moore(_, _)
Moore(C, cls) ==
  LET sig == TLCEval([q \in C.U |-> <<C.fin[q], {<<a[1], a[2], cls[a[3]]>> : a \in C.arcs[q]}>>])
      sigs == SetToSeq({sig[q] : q \in C.U})
      nxt == TLCEval([q \in C.U |-> CHOOSE i \in 1 .. Len(sigs) : sigs[i] = sig[q]])
  IN  IF Len(sigs) = Cardinality({cls[q] : q \in C.U}) THEN Len(sigs) ELSE Moore(C, nxt)
MinimalSize(F) == LET C == TLCEval(Canon(F)) IN IF C.U = {} THEN 0 ELSE C.extra + Moore(C, [q \in C.U |-> 1])

MinClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "ok"
      det == IDeterministic(F)
      acc == Acceptor(F)
  IN
  {Total(e), WF(e),
   Chk("succeeds", det \/ (Idempotent(sr) /\ e.nd), ok),
   Chk("refuses-nondet", ~det /\ ~(Idempotent(sr) /\ e.nd), e.k = "err"),
   Chk("rel", ok, SameRel(e.v, F, sr, LOf(e))),
   Chk("no-growth", ok /\ acc, NumStates(e.v) <= Cardinality(UsefulStates(F)) + (IF sr = "trop" THEN TLCEval(Canon(F)).extra ELSE 1)),
   Chk("det", ok /\ acc /\ det, IDeterministic(e.v)),
   Chk("trim", ok /\ acc, Connected(e.v)),
   Chk("minimal", ok /\ acc /\ det /\ NoIEps(F) /\ sr = "trop", NumStates(e.v) = MinimalSize(F))}
=============================================================================
