-------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* Isomorphism and equality of machines.  Two machines are isomorphic when *)
(* some renumbering of the states carries start, final weights and the     *)
(* multiset of transitions of every state over to the other; weights may   *)
(* differ by the tolerance tol the caller asked for.                       *)
(***************************************************************************)
EXTENDS Weights

NearW(a, b, tol) == a = b \/ AbsI(a - b) <= tol
RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(x, Tail(s))
\* the weights, in ascending order, of the transitions of q labelled il:ol whose target is in T
WeightsTo(F, q, il, ol, T) ==
  FoldLeft(LAMBDA acc, t : IF IL(t) = il /\ OL(t) = ol /\ NS(t) \in T THEN Ins(WT(t), acc) ELSE acc, <<>>, Arcs(F, q))
NearSeq(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : NearW(u[i], v[i], tol)
StateMatches(F, G, m, q, tol) ==
  LET p == m[q] IN
  /\ Len(F.f[q + 1]) = Len(G.f[p + 1])
  /\ F.f[q + 1] = <<>> \/ NearW(F.f[q + 1][1], G.f[p + 1][1], tol)
  /\ Len(Arcs(F, q)) = Len(Arcs(G, p))
  /\ \A i \in 1 .. Len(Arcs(F, q)) :
       LET t == Arcs(F, q)[i] IN
       NearSeq(WeightsTo(F, q, IL(t), OL(t), {NS(t)}), WeightsTo(G, p, IL(t), OL(t), {m[NS(t)]}), tol)
Bijections(S, T) == {m \in [S -> T] : \A x, y \in S : m[x] = m[y] => x = y}
\* some renumbering of the states S of F into the states T of G carries F to G
IsoOn(F, G, S, T, tol) ==
  /\ Cardinality(S) = Cardinality(T)
  /\ (F.s = -1) = (G.s = -1)
  /\ LET P == S \ {F.s} Q == T \ {G.s} IN
     \E m0 \in Bijections(P, Q) :
       LET m == [x \in S |-> IF x = F.s THEN G.s ELSE m0[x]] IN
       \A q \in S : StateMatches(F, G, m, q, tol)
\* no state has two transitions with the same labels and indistinguishable weights
Required(F, tol) ==
  \A q \in States(F) : \A i, j \in 1 .. Len(Arcs(F, q)) :
    i # j => ~(IL(Arcs(F, q)[i]) = IL(Arcs(F, q)[j]) /\ OL(Arcs(F, q)[i]) = OL(Arcs(F, q)[j])
               /\ NearW(WT(Arcs(F, q)[i]), WT(Arcs(F, q)[j]), 2 * tol))
IsoClauses(e, ins) ==
  LET F == ins[1] G == ins[2]
      det == Required(F, e.tol) /\ Required(G, e.tol)
      trim == AccStates(F) = States(F) /\ AccStates(G) = States(G)
      acc == TLCEval(IsoOn(F, G, AccStates(F), AccStates(G), e.tol))
      yes == e.k = "val" /\ e.v = TRUE
      no == e.k = "val" /\ e.v = FALSE
  IN {Total(e),
      Chk("true-only-if-isomorphic", yes, acc),
      Chk("true-if-isomorphic", det /\ trim /\ acc, yes),
      Chk("decides", det, e.k = "val"),
      Chk("false-if-not-isomorphic", det /\ ~acc, no)}
EqualClauses(e, ins) ==
  {MustSucceed(e),
   Chk("structural", e.k = "val", e.v = (ins[1].s = ins[2].s /\ ins[1].f = ins[2].f /\ ins[1].a = ins[2].a))}
=============================================================================
