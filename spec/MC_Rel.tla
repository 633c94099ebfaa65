------------------------------- MODULE MC_Rel -------------------------------
(***************************************************************************)
(* The specification against itself: on every pair of small machines       *)
(* (built transition by transition) the reference constructions of Refs    *)
(* have the meaning their names promise, stated on weighted relations as   *)
(* finite functions, and the Java override of WRel agrees with WRelDef.    *)
(***************************************************************************)
EXTENDS Refs, TLC
CONSTANTS Sr, MaxArcs, Bound

VARIABLES F, G, turn
vars == <<F, G, turn>>

Wts == CASE Sr = "trop" -> {0, 2} [] Sr = "real" -> {RS \div 4} [] OTHER -> {1}
ArcChoices == {<<p, i, o, w, q>> : p \in 0 .. 1, i \in 0 .. 1, o \in 0 .. 1, w \in Wts, q \in 0 .. 1}
Rank(c) == (((c[1] * 2 + c[2]) * 2 + c[3]) * 3 + c[4]) * 2 + c[5]
Empty == [s |-> 0, f |-> << <<>>, <<>> >>, a |-> << <<>>, <<>> >>, last |-> -1]
Put(M, c) == [M EXCEPT !.a[c[1] + 1] = Append(@, <<c[2], c[3], c[4], c[5]>>), !.last = Rank(c)]
Fin(M, q) == [M EXCEPT !.f[q + 1] = <<One(Sr)>>]

Init == F = Empty /\ G = Empty /\ turn = "F"
NArcs(M) == Len(M.a[1]) + Len(M.a[2])
\* transitions in the order of their rank (a multiset is built once), then a final state
Extend(M) == IF M.f # << <<>>, <<>> >> THEN {}
             ELSE {Put(M, c) : c \in {x \in ArcChoices : NArcs(M) < MaxArcs /\ Rank(x) >= M.last}}
                  \cup {Fin(M, q) : q \in 0 .. 1}
Done(M) == M.f # << <<>>, <<>> >>
Next == \/ turn = "F" /\ ~Done(F) /\ F' \in Extend(F) /\ UNCHANGED <<G, turn>>
        \/ turn = "F" /\ Done(F) /\ turn' = "G" /\ UNCHANGED <<F, G>>
        \/ turn = "G" /\ ~Done(G) /\ G' \in Extend(G) /\ UNCHANGED <<F, turn>>
Spec == Init /\ [][Next]_vars

Strip(M) == [s |-> M.s, f |-> M.f, a |-> M.a]
RF == WRel(Strip(F), Sr, Bound)
RG == WRel(Strip(G), Sr, Bound)
Ready == turn = "G" /\ Done(G)

Sum(S, f(_)) == FoldSet(LAMBDA x, acc : Add(Sr, acc, f(x)), Zero(Sr), S)
At(R, p) == RelAt(Sr, R, p)
Agree(R, dom, val(_)) == \A p \in dom : WEq(Sr, At(R, p), val(p))
Words == WordsUpTo({1}, Bound)
Pairs == Words \X Words
Splits(x) == {<<SubSeq(x, 1, i), SubSeq(x, i + 1, Len(x))>> : i \in 0 .. Len(x)}

InvOverride == (turn = "F" /\ Done(F)) => /\ WRelDef(Strip(F), Sr, Bound) = RF
                                           /\ WRel(InvertRef(Strip(F)), Sr, Bound) = [p \in {<<q[2], q[1]>> : q \in DOMAIN RF} |-> RF[<<p[2], p[1]>>]]
                                           /\ RelEq(Sr, WRel(ReverseRef(Strip(F), Sr), Sr, Bound),
                                                    [p \in {<<Reverse(q[1]), Reverse(q[2])>> : q \in DOMAIN RF} |-> RF[<<Reverse(p[1]), Reverse(p[2])>>]])
InvUnion == Ready => Agree(WRel(UnionRef(Strip(F), Strip(G), Sr), Sr, Bound), Pairs, LAMBDA p : Add(Sr, At(RF, p), At(RG, p)))
InvConcat == Ready => Agree(WRel(ConcatRef(Strip(F), Strip(G), Sr), Sr, Bound), Pairs,
   LAMBDA p : Sum(Splits(p[1]) \X Splits(p[2]), LAMBDA s : Mul(Sr, At(RF, <<s[1][1], s[2][1]>>), At(RG, <<s[1][2], s[2][2]>>))))
\* the intermediate string is as long as the machines allow: exact when F is acyclic
SelfLoop(M) == \E q \in 1 .. 2 : \E i \in 1 .. Len(M.a[q]) : M.a[q][i][4] = q - 1
TwoCycle(M) == (\E i \in 1 .. Len(M.a[1]) : M.a[1][i][4] = 1) /\ (\E i \in 1 .. Len(M.a[2]) : M.a[2][i][4] = 0)
Finite(M) == ~SelfLoop(M) /\ ~TwoCycle(M)
InvCompose == (Ready /\ (Finite(F) \/ Finite(G))) =>
   Agree(WRel(ComposeRef(Strip(F), Strip(G), Sr, "seq"), Sr, Bound), Pairs,
         LAMBDA p : Sum(Words, LAMBDA y : Mul(Sr, At(RF, <<p[1], y>>), At(RG, <<y, p[2]>>))))
\* closure is the least fixpoint:  star = 1 + F.star,  plus = F.star
Eps == << <<>>, <<>> >>
InvClosure == (turn = "F" /\ Done(F)) =>
   LET st == WRel(ClosureRef(Strip(F), Sr, "star"), Sr, Bound)
       pl == WRel(ClosureRef(Strip(F), Sr, "plus"), Sr, Bound)
       prod(p) == Sum(Splits(p[1]) \X Splits(p[2]), LAMBDA s : Mul(Sr, At(RF, <<s[1][1], s[2][1]>>), At(st, <<s[1][2], s[2][2]>>)))
   IN  /\ Agree(pl, Pairs, prod)
       /\ Agree(st, Pairs, LAMBDA p : Add(Sr, IF p = Eps THEN One(Sr) ELSE Zero(Sr), prod(p)))
=============================================================================
