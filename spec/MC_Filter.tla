------------------------------ MODULE MC_Filter ------------------------------
(***************************************************************************)
(* Composition as the library builds it: a product with a filter state,    *)
(* one transition function per filter.  On every pair of small machines    *)
(* the sequence, alternate-sequence and match filters let each pair of     *)
(* paths through exactly once (counting semiring), i.e. they have the      *)
(* relation of the reference composition, whatever side is matched.        *)
(***************************************************************************)
EXTENDS Refs, TLC
CONSTANTS Sr, MaxArcs, Bound

VARIABLES F, G, turn
vars == <<F, G, turn>>
ArcChoices == {<<p, i, o, 1, q>> : p \in 0 .. 1, i \in {0, 1}, o \in {0, 1}, q \in 0 .. 1}
\* only the matched side matters: F keeps its input at 0 or 1 as drawn, G its output
Rank(c) == ((c[1] * 2 + c[2]) * 2 + c[3]) * 2 + c[5]
Empty == [s |-> 0, f |-> << <<>>, <<>> >>, a |-> << <<>>, <<>> >>, last |-> -1]
Put(M, c) == [M EXCEPT !.a[c[1] + 1] = Append(@, <<c[2], c[3], c[4], c[5]>>), !.last = Rank(c)]
NArcs(M) == Len(M.a[1]) + Len(M.a[2])
Done(M) == M.f # << <<>>, <<>> >>
Extend(M) == IF Done(M) THEN {}
             ELSE {Put(M, c) : c \in {x \in ArcChoices : NArcs(M) < MaxArcs /\ Rank(x) >= M.last}}
                  \cup {[M EXCEPT !.f = fs] : fs \in {<< <<>>, <<1>> >>, << <<1>>, <<1>> >>}}
Init == F = Empty /\ G = Empty /\ turn = "F"
Next == \/ turn = "F" /\ ~Done(F) /\ F' \in Extend(F) /\ UNCHANGED <<G, turn>>
        \/ turn = "F" /\ Done(F) /\ turn' = "G" /\ UNCHANGED <<F, G>>
        \/ turn = "G" /\ ~Done(G) /\ G' \in Extend(G) /\ UNCHANGED <<F, turn>>
Spec == Init /\ [][Next]_vars
Strip(M) == [s |-> M.s, f |-> M.f, a |-> M.a]

None == -1
\* what a filter sees of a pair of states
View(p, q) ==
  LET A == Arcs(F, p)  B == Arcs(G, q)
      ne1 == Len(SelectSeq(A, LAMBDA t : OL(t) = 0))
      ne2 == Len(SelectSeq(B, LAMBDA t : IL(t) = 0))
  IN  [alleps1 |-> ne1 = Len(A) /\ ~IsFinal(F, p), noeps1 |-> ne1 = 0,
       alleps2 |-> ne2 = Len(B) /\ ~IsFinal(G, q), noeps2 |-> ne2 = 0]
\* next filter state; move: "one" (only F moves, on an output epsilon), "two" (only G
\* moves, on an input epsilon), "eps" (both move on epsilons), "sym" (both on a symbol)
Step(flt, v, fs, move) ==
  CASE flt = "seq" ->
         (CASE move = "two" -> IF v.alleps1 THEN None ELSE IF v.noeps1 THEN 0 ELSE 1
            [] move = "one" -> IF fs # 0 THEN None ELSE 0
            [] move = "eps" -> None
            [] OTHER -> 0)
    [] flt = "alt" ->
         (CASE move = "one" -> IF v.alleps2 THEN None ELSE IF v.noeps2 THEN 0 ELSE 1
            [] move = "two" -> IF fs = 1 THEN None ELSE 0
            [] move = "eps" -> None
            [] OTHER -> 0)
    [] flt = "match" ->
         (CASE move = "one" -> IF fs = 0 THEN (IF v.noeps2 THEN 0 ELSE IF v.alleps2 THEN None ELSE 1)
                               ELSE IF fs = 1 THEN 1 ELSE None
            [] move = "two" -> IF fs = 0 THEN (IF v.noeps1 THEN 0 ELSE IF v.alleps1 THEN None ELSE 2)
                               ELSE IF fs = 2 THEN 2 ELSE None
            [] move = "eps" -> IF fs = 0 THEN 0 ELSE None
            [] OTHER -> 0)
Product(flt) ==
  LET Id(p, q, fs) == (p * 2 + q) * 3 + fs
      P(k) == (k - 1) \div 6   Q(k) == ((k - 1) \div 3) % 2   FS(k) == (k - 1) % 3
      At(p, q, fs) ==
        LET A == Arcs(F, p)  B == Arcs(G, q)  v == View(p, q)
            Go(move) == Step(flt, v, fs, move)
            joint == FlattenSeq([i \in 1 .. Len(A) |-> LET t == A[i]
               mb == SelectSeq(B, LAMBDA u : IL(u) = OL(t))
               mv == IF OL(t) = 0 THEN "eps" ELSE "sym"
               IN IF Go(mv) = None THEN <<>> ELSE
                  [j \in 1 .. Len(mb) |-> <<IL(t), OL(mb[j]), 1, Id(NS(t), NS(mb[j]), Go(mv))>>]])
            e1 == SelectSeq(A, LAMBDA t : OL(t) = 0)
            e2 == SelectSeq(B, LAMBDA t : IL(t) = 0)
            one == IF Go("one") = None THEN <<>> ELSE [i \in 1 .. Len(e1) |-> <<IL(e1[i]), 0, 1, Id(NS(e1[i]), q, Go("one"))>>]
            two == IF Go("two") = None THEN <<>> ELSE [i \in 1 .. Len(e2) |-> <<0, OL(e2[i]), 1, Id(p, NS(e2[i]), Go("two"))>>]
        IN joint \o one \o two
  IN [s |-> 0, f |-> [k \in 1 .. 12 |-> IF IsFinal(F, P(k)) /\ IsFinal(G, Q(k)) THEN <<1>> ELSE <<>>],
      a |-> TLCEval([k \in 1 .. 12 |-> At(P(k), Q(k), FS(k))])]
Ready == turn = "G" /\ Done(G)
Once == Ready => LET R == TLCEval(WRel(ComposeRef(Strip(F), Strip(G), Sr, "seq"), Sr, Bound))
                 IN  \A flt \in {"seq", "alt", "match"} : RelEq(Sr, WRel(Product(flt), Sr, Bound), R)
=============================================================================
