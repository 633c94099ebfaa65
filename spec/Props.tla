------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The declared properties of a machine: 16 pairs (P, not P).  A machine   *)
(* value carries the bits it claims in p = <<bits 16..31, bits 32..47>>;   *)
(* a claim is sound iff the named predicate holds of the actual states and *)
(* transitions.  No bit of a pair set means "unknown".                     *)
(***************************************************************************)
EXTENDS Coding

TrivialW(sr, w) == w = One(sr) \/ w = Zero(sr)
Weighted_(F, sr) == \/ \E q \in States(F) : \E i \in 1 .. Len(Arcs(F, q)) : ~TrivialW(sr, WT(Arcs(F, q)[i]))
                    \/ \E q \in States(F) : IsFinal(F, q) /\ FinalW(F, sr, q) # One(sr)
Reach(F, q) == ReachFrom(F, Succ(F, q), Succ(F, q))
WeightedCycles(F, sr) ==
  \E q \in States(F) : \E i \in 1 .. Len(Arcs(F, q)) :
     LET t == Arcs(F, q)[i] IN ~TrivialW(sr, WT(t)) /\ q \in ReachFrom(F, {NS(t)}, {NS(t)})
StringMachine(F) ==
  LET n == NumStates(F) IN
  n = 0 \/ (/\ F.s = 0
            /\ IsFinal(F, n - 1) /\ Len(Arcs(F, n - 1)) = 0
            /\ \A q \in 0 .. n - 2 : ~IsFinal(F, q) /\ Len(Arcs(F, q)) = 1 /\ NS(Arcs(F, q)[1]) = q + 1)

\* pair k (1..16): the predicate of the pair
PairName == <<"acceptor", "ideterministic", "odeterministic", "epsilons", "iepsilons", "oepsilons",
              "ilabel-sorted", "olabel-sorted", "weighted", "cyclic", "initial-cyclic", "top-sorted",
              "accessible", "coaccessible", "string", "weighted-cycles">>
\* the lower bit of a pair claims the predicate, the upper one its negation
PairHolds(k, F, sr) ==
  CASE k = 1 -> Acceptor(F)
    [] k = 2 -> IDeterministic(F)
    [] k = 3 -> ODeterministic(F)
    [] k = 4 -> ~NoEps(F)
    [] k = 5 -> ~NoIEps(F)
    [] k = 6 -> ~NoOEps(F)
    [] k = 7 -> ILabelSorted(F)
    [] k = 8 -> OLabelSorted(F)
    [] k = 9 -> Weighted_(F, sr)
    [] k = 10 -> ~Acyclic(F)
    [] k = 11 -> ~InitialAcyclic(F)
    [] k = 12 -> TopSorted(F)
    [] k = 13 -> AccStates(F) = States(F)
    [] k = 14 -> CoAccStates(F) = States(F)
    [] k = 15 -> StringMachine(F)
    [] k = 16 -> WeightedCycles(F, sr)
Half(p, k) == IF k <= 8 THEN p[1] ELSE p[2]
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
BitOf(p, k, neg) == (Half(p, k) \div Pow2[2 * ((k - 1) % 8) + 1 + (IF neg THEN 1 ELSE 0)]) % 2 = 1
\* claims about the string shape of a machine with states but without start state are left open
Claimed(F, p, k, neg) == BitOf(p, k, neg) /\ ~(k = 15 /\ F.s = -1 /\ NumStates(F) > 0)
FalseClaims(F, p, sr) ==
  {(IF neg THEN "not-" ELSE "") \o PairName[k] : <<k, neg>> \in
     {kn \in (1 .. 16) \X BOOLEAN : Claimed(F, p, kn[1], kn[2]) /\ (PairHolds(kn[1], F, sr) = kn[2])}}
PropsSound(F, sr) == FalseClaims(F, F.p, sr) = {}
\* every pair decided
Complete(p) == \A k \in 1 .. 16 : BitOf(p, k, FALSE) # BitOf(p, k, TRUE)
=============================================================================
