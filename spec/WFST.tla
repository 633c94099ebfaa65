------------------------------- MODULE WFST --------------------------------
(***************************************************************************)
(* Weighted finite-state transducers: the abstract state of the library.   *)
(*                                                                         *)
(* An FST value is a record                                                *)
(*   s : start state, or -1                                                *)
(*   f : sequence (state q at position q+1) of <<>> or <<final weight>>    *)
(*   a : sequence (state q at position q+1) of sequences of arcs           *)
(*       <<ilabel, olabel, weight, nextstate>>;  label 0 is epsilon.       *)
(* (further fields, e.g. p = claimed property bits, are ignored here).     *)
(*                                                                         *)
(* The meaning of an FST over a semiring is its weighted relation          *)
(*   [F](x,y) = (+) over all successful paths labelled x:y of the          *)
(*              (x)-product of the weights on the path.                    *)
(* WRel(F, sr, L) is that function restricted to |x|,|y| <= L and to its   *)
(* support.                                                                *)
(***************************************************************************)
EXTENDS Semirings, SequencesExt, FiniteSetsExt, Functions, TLC

NumStates(F) == Len(F.f)
States(F) == 0 .. (NumStates(F) - 1)
Arcs(F, q) == F.a[q + 1]
IsFinal(F, q) == F.f[q + 1] # <<>>
FinalW(F, sr, q) == IF F.f[q + 1] = <<>> THEN Zero(sr) ELSE F.f[q + 1][1]
ArcSet(F) == UNION {{<<q, i>> : i \in 1 .. Len(Arcs(F, q))} : q \in States(F)}
IL(t) == t[1]
OL(t) == t[2]
WT(t) == t[3]
NS(t) == t[4]
EmptyFst == [s |-> -1, f |-> <<>>, a |-> <<>>]
NumArcs(F) == FoldFunction(LAMBDA x, y : Len(x) + y, 0, F.a)

\* An FST value is well-formed: every reference is to an existing state.
WellFormed(F) ==
  /\ Len(F.f) = Len(F.a)
  /\ F.s = -1 \/ F.s \in States(F)
  /\ \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) : NS(Arcs(F, q)[i]) \in States(F)

----------------------------------------------------------------------------
\* Weighted relation, by definition.

LabelsOf(F, k) == {Arcs(F, qi[1])[qi[2]][k] : qi \in ArcSet(F)}

\* total weight of the arcs p -> q labelled il:ol
ArcW(F, sr, il, ol, p, q) ==
  LET as == Arcs(F, p) IN
  FoldLeft(LAMBDA acc, t : IF IL(t) = il /\ OL(t) = ol /\ NS(t) = q
                           THEN Add(sr, acc, WT(t)) ELSE acc, Zero(sr), as)
ArcMat(F, sr, il, ol) ==
  TLCEval([p \in States(F) |-> TLCEval([q \in States(F) |-> ArcW(F, sr, il, ol, p, q)])])

\* Reflexive-transitive closure of a weight matrix (Lehmann / Floyd-Warshall-Kleene)
RECURSIVE Lehmann(_, _, _, _)
Lehmann(sr, M, n, k) ==
  IF k = n THEN M
  ELSE LET st == Star(sr, M[k][k])
           Nx == TLCEval([i \in 0 .. n-1 |-> TLCEval([j \in 0 .. n-1 |->
                   Add(sr, M[i][j], Mul(sr, Mul(sr, M[i][k], st), M[k][j]))])])
       IN  Lehmann(sr, Nx, n, k + 1)
StarMat(sr, M, n) ==
  LET P == Lehmann(sr, M, n, 0)
  IN  TLCEval([i \in 0 .. n-1 |-> TLCEval([j \in 0 .. n-1 |->
        IF i = j THEN Add(sr, One(sr), P[i][j]) ELSE P[i][j]])])

VecMat(sr, v, M, n) ==
  TLCEval([j \in 0 .. n-1 |->
     FoldLeft(LAMBDA acc, i : Add(sr, acc, Mul(sr, v[i - 1], M[i - 1][j])),
              Zero(sr), [i \in 1 .. n |-> i])])
VecAdd(sr, u, v) == TLCEval([j \in DOMAIN u |-> Add(sr, u[j], v[j])])
VecDot(sr, u, v, n) ==
  FoldLeft(LAMBDA acc, i : Add(sr, acc, Mul(sr, u[i - 1], v[i - 1])), Zero(sr), [i \in 1 .. n |-> i])

WordsUpTo(A, L) == UNION {[1 .. n -> A] : n \in 0 .. L}

WRelDef(F, sr, L) ==
  IF F.s = -1 THEN << >>
  ELSE
  LET n   == NumStates(F)
      I   == LabelsOf(F, 1) \ {0}
      O   == LabelsOf(F, 2) \ {0}
      mats == TLCEval([ab \in (I \cup {0}) \X (O \cup {0}) |-> ArcMat(F, sr, ab[1], ab[2])])
      E   == StarMat(sr, mats[<<0, 0>>], n)
      unit == [j \in 0 .. n-1 |-> IF j = F.s THEN One(sr) ELSE Zero(sr)]
      zerov == [j \in 0 .. n-1 |-> Zero(sr)]
      dom == WordsUpTo(I, L) \X WordsUpTo(O, L)
      V[xy \in dom] ==
        LET x == xy[1]  y == xy[2] IN
        VecMat(sr,
          IF x = <<>> /\ y = <<>> THEN unit
          ELSE VecAdd(sr,
                 VecAdd(sr,
                  IF x # <<>> /\ y # <<>>
                  THEN VecMat(sr, V[<<Front(x), Front(y)>>], mats[<<Last(x), Last(y)>>], n) ELSE zerov,
                  IF x # <<>>
                  THEN VecMat(sr, V[<<Front(x), y>>], mats[<<Last(x), 0>>], n) ELSE zerov),
                 IF y # <<>>
                 THEN VecMat(sr, V[<<x, Front(y)>>], mats[<<0, Last(y)>>], n) ELSE zerov),
          E, n)
      fin == [j \in 0 .. n-1 |-> FinalW(F, sr, j)]
      all == TLCEval([xy \in dom |-> VecDot(sr, V[xy], fin, n)])
      supp == {xy \in dom : all[xy] # Zero(sr)}
  IN  [xy \in supp |-> all[xy]]

\* Same value; TLC uses the Java override WFSTOverrides.wrel (see /verif/java),
\* which module MC_WRel checks against WRelDef.
WRel(F, sr, L) == WRelDef(F, sr, L)

RelAt(sr, R, p) == IF p \in DOMAIN R THEN R[p] ELSE Zero(sr)
RelEq(sr, R, S) == \A p \in DOMAIN R \cup DOMAIN S : WEq(sr, RelAt(sr, R, p), RelAt(sr, S, p))
RelDiff(sr, R, S) == {p \in DOMAIN R \cup DOMAIN S : ~WEq(sr, RelAt(sr, R, p), RelAt(sr, S, p))}
SameRel(F, G, sr, L) == RelEq(sr, WRel(F, sr, L), WRel(G, sr, L))

----------------------------------------------------------------------------
\* Structure of the underlying graph.
Succ(F, q) == {NS(Arcs(F, q)[i]) : i \in 1 .. Len(Arcs(F, q))}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(F, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET nx == (UNION {Succ(F, q) : q \in frontier}) \ seen
       IN  ReachFrom(F, seen \cup nx, nx)
AccStates(F) == IF F.s = -1 THEN {} ELSE ReachFrom(F, {F.s}, {F.s})
RECURSIVE CoReach(_, _)
CoReach(F, S) ==
  LET T == S \cup {q \in States(F) : Succ(F, q) \cap S # {}}
  IN  IF T = S THEN S ELSE CoReach(F, T)
Finals(F) == {q \in States(F) : IsFinal(F, q)}
CoAccStates(F) == CoReach(F, Finals(F))
UsefulStates(F) == AccStates(F) \cap CoAccStates(F)
Connected(F) == UsefulStates(F) = States(F)

AllArcs(F, P(_)) == \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) : P(Arcs(F, q)[i])
SortedBy(F, k) == \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) - 1 : Arcs(F, q)[i][k] <= Arcs(F, q)[i + 1][k]
ILabelSorted(F) == SortedBy(F, 1)
OLabelSorted(F) == SortedBy(F, 2)
UniqueBy(F, k) == \A q \in States(F) : \A i, j \in 1 .. Len(Arcs(F, q)) :
                    (i # j) => Arcs(F, q)[i][k] # Arcs(F, q)[j][k]
IDeterministic(F) == UniqueBy(F, 1)
ODeterministic(F) == UniqueBy(F, 2)
Acceptor(F) == AllArcs(F, LAMBDA t : IL(t) = OL(t))
NoIEps(F) == AllArcs(F, LAMBDA t : IL(t) # 0)
NoOEps(F) == AllArcs(F, LAMBDA t : OL(t) # 0)
NoEps(F) == AllArcs(F, LAMBDA t : IL(t) # 0 \/ OL(t) # 0)
OnCycle(F, q) == q \in ReachFrom(F, Succ(F, q), Succ(F, q))
CyclicStates(F) == {q \in States(F) : OnCycle(F, q)}
Acyclic(F) == CyclicStates(F) = {}
TopSorted(F) == \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) : NS(Arcs(F, q)[i]) > q
InitialAcyclic(F) == F.s = -1 \/ ~OnCycle(F, F.s)
=============================================================================
