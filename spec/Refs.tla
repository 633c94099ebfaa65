-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Reference constructions: the specification's own, deliberately naive,   *)
(* definition of every operation as a function on FST values.  Modules     *)
(* MC_* check them against the set-theoretic meaning of the operation on   *)
(* all small machines; Contracts.tla uses them to judge the library.       *)
(***************************************************************************)
EXTENDS WFST

ShiftArc(t, k) == <<t[1], t[2], t[3], t[4] + k>>
ShiftArcs(a, k) == [q \in 1 .. Len(a) |-> [i \in 1 .. Len(a[q]) |-> ShiftArc(a[q][i], k)]]

\* Disjoint union; a fresh start state with one-weight epsilon moves to both starts.
UnionRef(F, G, sr) ==
  LET n == NumStates(F)  m == NumStates(G)
      st == (IF F.s = -1 THEN <<>> ELSE <<<<0, 0, One(sr), F.s>>>>)
            \o (IF G.s = -1 THEN <<>> ELSE <<<<0, 0, One(sr), G.s + n>>>>)
  IN  [s |-> n + m,
       f |-> F.f \o G.f \o << <<>> >>,
       a |-> F.a \o ShiftArcs(G.a, n) \o <<st>>]

FinalToEps(F, a, tgt) ==
  [q \in 1 .. Len(a) |-> IF F.f[q] = <<>> THEN a[q] ELSE Append(a[q], <<0, 0, F.f[q][1], tgt>>)]

ConcatRef(F, G, sr) ==
  IF F.s = -1 \/ G.s = -1 THEN EmptyFst
  ELSE LET n == NumStates(F) IN
       [s |-> F.s,
        f |-> [q \in 1 .. n |-> <<>>] \o G.f,
        a |-> FinalToEps(F, F.a, G.s + n) \o ShiftArcs(G.a, n)]

\* kind "plus" or "star"
ClosureRef(F, sr, kind) ==
  LET n == NumStates(F)
      st == IF F.s = -1 THEN <<>> ELSE <<<<0, 0, One(sr), F.s>>>>
      \* a fresh final hub: start -> hub(star: final); every final goes back to the old start
  IN  IF F.s = -1
      THEN (IF kind = "plus" THEN EmptyFst ELSE [s |-> 0, f |-> <<<<One(sr)>>>>, a |-> << <<>> >>])
      ELSE [s |-> n,
            f |-> F.f \o << (IF kind = "star" THEN <<One(sr)>> ELSE <<>>) >>,
            a |-> FinalToEps(F, F.a, F.s) \o <<st>>]

----------------------------------------------------------------------------
(* Composition.  A product state is (q1, q2, fs); flt selects which epsilon *)
(* moves are allowed:                                                       *)
(*  "seq"    all output-epsilons of the first machine, then all input-      *)
(*           epsilons of the second: each pair of paths is counted once     *)
(*           (the meaning of composition);                                  *)
(*  "null"   epsilon is an ordinary symbol (no machine moves alone);        *)
(*  "nomatch" either machine may move alone, in any order, never together;  *)
(*  "trivial" as nomatch, and both may also move together.                  *)
ComposeRef(F, G, sr, flt) ==
  IF F.s = -1 \/ G.s = -1 THEN EmptyFst
  ELSE
  LET n1 == NumStates(F)  n2 == NumStates(G)
      Id(p, q, fs) == (p * n2 + q) * 2 + fs
      ArcsAt(p, q, fs) ==
        LET A == Arcs(F, p)  B == Arcs(G, q)
            e1 == SelectSeq(A, LAMBDA t : OL(t) = 0)
            e2 == SelectSeq(B, LAMBDA t : IL(t) = 0)
            joint == FlattenSeq([i \in 1 .. Len(A) |->
               LET t == A[i]
                   mb == SelectSeq(B, LAMBDA u : IL(u) = OL(t) /\ (OL(t) # 0 \/ flt \in {"null", "trivial"}))
               IN  [j \in 1 .. Len(mb) |-> <<IL(t), OL(mb[j]), Mul(sr, WT(t), WT(mb[j])), Id(NS(t), NS(mb[j]), 0)>>]])
            alone1 == IF flt = "null" \/ fs = 1 THEN <<>>
                      ELSE [i \in 1 .. Len(e1) |-> <<IL(e1[i]), 0, WT(e1[i]), Id(NS(e1[i]), q, 0)>>]
            alone2 == IF flt = "null" THEN <<>>
                      ELSE [i \in 1 .. Len(e2) |-> <<0, OL(e2[i]), WT(e2[i]), Id(p, NS(e2[i]), IF flt = "seq" THEN 1 ELSE 0)>>]
        IN  joint \o alone1 \o alone2
      P(k) == (k - 1) \div (2 * n2)
      Q(k) == ((k - 1) \div 2) % n2
      FS(k) == (k - 1) % 2
  IN  [s |-> Id(F.s, G.s, 0),
       f |-> TLCEval([k \in 1 .. (2 * n1 * n2) |->
               IF IsFinal(F, P(k)) /\ IsFinal(G, Q(k))
               THEN <<Mul(sr, FinalW(F, sr, P(k)), FinalW(G, sr, Q(k)))>> ELSE <<>>]),
       a |-> TLCEval([k \in 1 .. (2 * n1 * n2) |-> ArcsAt(P(k), Q(k), FS(k))])]

----------------------------------------------------------------------------
MapArcs(F, Op(_)) ==
  [F EXCEPT !.a = [q \in 1 .. Len(F.a) |-> [i \in 1 .. Len(F.a[q]) |-> Op(F.a[q][i])]]]
InvertRef(F) == MapArcs(F, LAMBDA t : <<t[2], t[1], t[3], t[4]>>)
ProjectRef(F, side) == MapArcs(F, LAMBDA t : IF side = "in" THEN <<t[1], t[1], t[3], t[4]>> ELSE <<t[2], t[2], t[3], t[4]>>)

\* language reversal, weights of commutative semirings (reverse weight = same weight)
ReverseRef(F, sr) ==
  IF F.s = -1 THEN EmptyFst
  ELSE LET n == NumStates(F)
           init == FlattenSeq([q \in 1 .. n |-> IF F.f[q] = <<>> THEN <<>> ELSE <<<<0, 0, F.f[q][1], q - 1>>>>])
           into(q) == FlattenSeq([p \in 1 .. n |->
                        LET hs == SelectSeq(F.a[p], LAMBDA t : NS(t) = q)
                        IN  [i \in 1 .. Len(hs) |-> <<IL(hs[i]), OL(hs[i]), WT(hs[i]), p - 1>>]])
       IN  [s |-> n,
            f |-> [q \in 1 .. n + 1 |-> IF q - 1 = F.s THEN <<One(sr)>> ELSE <<>>],
            a |-> TLCEval([q \in 1 .. n + 1 |-> IF q = n + 1 THEN init ELSE into(q - 1)])]
=============================================================================
