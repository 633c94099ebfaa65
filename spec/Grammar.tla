------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* Recursive transition networks: replace.  A state of the expansion is a  *)
(* call stack with the current rule and state.                             *)
(***************************************************************************)
EXTENDS Determinism

\* rules: sequence of FST values, labs: their non-terminals (the last rule of a label counts)
RuleOf(labs, l) == IF \E i \in 1 .. Len(labs) : labs[i] = l
                   THEN Max({i \in 1 .. Len(labs) : labs[i] = l}) ELSE 0
\* configurations: <<stack, rule, state>>, stack a sequence of <<rule, state to return to>>
RArcs(rules, labs, eps, sr, c) ==
  LET F == rules[c[2]]  q == c[3]  A == Arcs(F, q)
      one(t) == LET j == IF OL(t) = 0 THEN 0 ELSE RuleOf(labs, OL(t)) IN
                IF j = 0 THEN << <<IL(t), OL(t), WT(t), <<c[1], c[2], NS(t)>>>> >>
                ELSE IF rules[j].s = -1 THEN <<>>
                ELSE << <<IF eps THEN 0 ELSE IL(t), 0, WT(t),
                          <<Append(c[1], <<c[2], NS(t)>>), j, rules[j].s>>>> >>
      ret == IF c[1] # <<>> /\ IsFinal(F, q)
             THEN << <<0, 0, FinalW(F, sr, q), <<Front(c[1]), Last(c[1])[1], Last(c[1])[2]>>>> >> ELSE <<>>
  IN  FlattenSeq([i \in 1 .. Len(A) |-> one(A[i])]) \o ret
RECURSIVE RReach(_, _, _, _, _, _)
RReach(rules, labs, eps, sr, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == UNION {LET as == RArcs(rules, labs, eps, sr, c) IN {as[i][4] : i \in 1 .. Len(as)} : c \in front} \ seen
       IN  RReach(rules, labs, eps, sr, TLCEval(seen \cup nx), TLCEval(nx))
ReplaceRef(rules, labs, root, eps, sr) ==
  LET r == RuleOf(labs, root) IN
  IF rules[r].s = -1 THEN EmptyFst
  ELSE LET c0 == <<<<>>, r, rules[r].s>>
           C == TLCEval(SetToSeq(RReach(rules, labs, eps, sr, {c0}, {c0})))
           idx == TLCEval([c \in ToSet(C) |-> CHOOSE i \in 1 .. Len(C) : C[i] = c])
       IN  [s |-> idx[c0] - 1,
            f |-> TLCEval([i \in 1 .. Len(C) |-> IF C[i][1] = <<>> THEN rules[C[i][2]].f[C[i][3] + 1] ELSE <<>>]),
            a |-> TLCEval([i \in 1 .. Len(C) |-> LET as == RArcs(rules, labs, eps, sr, C[i]) IN
                    [k \in 1 .. Len(as) |-> <<as[k][1], as[k][2], as[k][3], idx[as[k][4]] - 1>>]])]

ReplaceClauses(e, ins) ==
  LET def == RuleOf(e.labs, e.root) # 0 IN
  {Total(e), WF(e),
   Chk("undefined-root", ~def, e.k = "err"),
   Chk("succeeds", def, e.k = "ok"),
   Chk("rel", def /\ e.k = "ok", SameRel(e.v, ReplaceRef(ins, e.labs, e.root, e.eps, e.sr), e.sr, LOf(e)))}
=============================================================================
