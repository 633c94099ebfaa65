------------------------------- MODULE MC_Algo -------------------------------
(***************************************************************************)
(* The constructions behind epsilon removal, pushing and determinization,  *)
(* as the library uses them, keep the weighted relation of every small     *)
(* machine (built transition by transition).                               *)
(***************************************************************************)
EXTENDS Determinism
CONSTANTS Sr, MaxArcs, Bound, OnlyAcceptors
VARIABLE F
NS2 == 3
ArcChoices == {<<p, i, o, w, n>> : p \in 0 .. 2, i \in {0, 1}, o \in (IF OnlyAcceptors THEN {9} ELSE {0, 1}),
                                   w \in (IF Sr = "trop" THEN {0, 2} ELSE {1}), n \in 0 .. 2}
Rank(c) == (((c[1] * 2 + c[2]) * 10 + c[3]) * 3 + c[4]) * 3 + c[5]
Blank == [s |-> 0, f |-> << <<>>, <<>>, <<>> >>, a |-> << <<>>, <<>>, <<>> >>, last |-> -1]
NArcs(M) == Len(M.a[1]) + Len(M.a[2]) + Len(M.a[3])
Done(M) == M.f # << <<>>, <<>>, <<>> >>
Init == F = Blank
Next == \/ \E c \in ArcChoices : /\ ~Done(F) /\ NArcs(F) < MaxArcs /\ Rank(c) >= F.last
                                 /\ F' = [F EXCEPT !.a[c[1] + 1] = Append(@, <<c[2], IF OnlyAcceptors THEN c[2] ELSE c[3], c[4], c[5]>>), !.last = Rank(c)]
        \/ \E q \in 1 .. 3 : ~Done(F) /\ F' = [F EXCEPT !.f[q] = <<IF Sr = "trop" THEN 2 ELSE 1>>]
Spec == Init /\ [][Next]_F
M == [s |-> F.s, f |-> F.f, a |-> F.a]
R == WRel(M, Sr, Bound)

\* epsilon removal: every state takes over the non-epsilon transitions and final weights of its closure
RmEps ==
  LET E == StarMat(Sr, ArcMat(M, Sr, 0, 0), NS2)
      keep(q) == SelectSeq(Arcs(M, q), LAMBDA t : IL(t) # 0 \/ OL(t) # 0)
  IN  [s |-> 0,
       f |-> [p \in 1 .. NS2 |-> LET w == FoldLeft(LAMBDA acc, q : Add(Sr, acc, Mul(Sr, E[p - 1][q - 1], FinalW(M, Sr, q - 1))), Zero(Sr), <<1, 2, 3>>)
                                 IN  IF w = Zero(Sr) THEN <<>> ELSE <<w>>],
       a |-> [p \in 1 .. NS2 |-> FlattenSeq([q \in 1 .. NS2 |->
                IF E[p - 1][q - 1] = Zero(Sr) THEN <<>>
                ELSE [i \in 1 .. Len(keep(q - 1)) |-> LET t == keep(q - 1)[i] IN <<IL(t), OL(t), Mul(Sr, E[p - 1][q - 1], WT(t)), NS(t)>>]])]]
EpsOk == \A p \in 0 .. 2 : StarMat(Sr, ArcMat(M, Sr, 0, 0), NS2)[p][p] # UNDEF
InvRmEps == (Done(F) /\ EpsOk) => RelEq(Sr, WRel(RmEps, Sr, Bound), R)

\* pushing towards the start by the distances to the final states
D == BwdDist(M, "trop")
Push(total) ==
  LET dd == TLCEval(D)
      pot(q) == IF dd[q] = TINF THEN 0 ELSE dd[q]
      base == IF total THEN 0 ELSE pot(0)
      arc(p, t) == <<IL(t), OL(t), WT(t) + pot(NS(t)) - pot(p), NS(t)>>
      push == [s |-> 0,
               f |-> [q \in 1 .. NS2 |-> IF M.f[q] = <<>> THEN <<>> ELSE <<M.f[q][1] - pot(q - 1)>>],
               a |-> [q \in 1 .. NS2 |-> [i \in 1 .. Len(M.a[q]) |-> arc(q - 1, M.a[q][i])]]]
  IN  \* the total weight comes back in front, on a new start state
      IF total THEN push
      ELSE [s |-> 3, f |-> Append(push.f, <<>>), a |-> Append(push.a, <<<<0, 0, base, 0>>>>)]
InvPush == (Done(F) /\ Sr = "trop") => RelEq(Sr, WRel(TLCEval(Push(FALSE)), Sr, Bound), R)
\* after pushing, every useful state has a way out of weight zero
InvPushed == (Done(F) /\ Sr = "trop") => LET after == TLCEval(BwdDist(TLCEval(Push(TRUE)), "trop")) IN \A q \in UsefulStates(M) : after[q] = 0

\* the subset construction
RECURSIVE AllSubsets(_, _, _)
AllSubsets(seen, front, bound) ==
  IF front = {} \/ Cardinality(seen) > bound THEN seen
  ELSE LET nx == TLCEval(UNION {Successors(M, S) : S \in front} \ seen) IN AllSubsets(TLCEval(seen \cup nx), nx, bound)
Det(subs) ==
  LET sq == <<{<<0, 0>>}>> \o SetToSeq(subs \ {{<<0, 0>>}})
      num(S) == (CHOOSE i \in 1 .. Len(sq) : sq[i] = S) - 1
      arcs(S) == LET dests == {<<IL(t), NS(t), r[2] + WT(t)>> : <<r, t>> \in UNION {{<<r, Arcs(M, r[1])[i]>> : i \in 1 .. Len(Arcs(M, r[1]))} : r \in S}}
                     one(l) == LET X == {d \in dests : d[1] = l}
                                   m == Min({d[3] : d \in X})
                                   T == {<<q, Min({d[3] : d \in {x \in X : x[2] = q}}) - m>> : q \in {d[2] : d \in X}}
                               IN  <<l, l, m, num(T)>>
                 IN  SetToSeq({one(l) : l \in {d[1] : d \in dests}})
      fin(S) == {r[2] + M.f[r[1] + 1][1] : r \in {x \in S : M.f[x[1] + 1] # <<>>}}
  IN  [s |-> 0, f |-> [i \in 1 .. Len(sq) |-> IF fin(sq[i]) = {} THEN <<>> ELSE <<Min(fin(sq[i]))>>],
       a |-> TLCEval([i \in 1 .. Len(sq) |-> arcs(sq[i])])]
InvDet == (Done(F) /\ OnlyAcceptors /\ Sr = "trop") =>
  LET subs == AllSubsets({{<<0, 0>>}}, {{<<0, 0>>}}, 12) IN
  Cardinality(subs) <= 12 => /\ IDeterministic(Det(subs))
                             /\ RelEq(Sr, WRel(Det(subs), Sr, Bound), R)
                             /\ SubsetCount(M, 100) = Cardinality(subs)
=============================================================================
