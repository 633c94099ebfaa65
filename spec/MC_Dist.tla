------------------------------- MODULE MC_Dist -------------------------------
(***************************************************************************)
(* The generic single-source shortest-distance algorithm with any queue    *)
(* discipline at all: whichever waiting state is taken next, it stops, and *)
(* the distances are then the sums over all paths (Lehmann's closure).     *)
(* "trop" on all machines, "int" (counts paths) on acyclic ones.           *)
(***************************************************************************)
EXTENDS WFST, TLC
CONSTANTS Sr, MaxArcs
VARIABLES arcs, d, r, q, run
vars == <<arcs, d, r, q, run>>
N == 3
St == 0 .. N - 1
ArcChoices == IF Sr = "trop" THEN {<<p, w, n>> : p \in St, w \in {0, 1, 3}, n \in St}
           ELSE {<<p, w, n>> : p \in St, w \in {1, 2}, n \in St} 
Rank(c) == (c[1] * 4 + c[2]) * 3 + c[3]
Legal(c) == Sr = "trop" \/ c[1] < c[3]
\* a source in the middle of the numbering, so that queue order and state order differ
Src == 0
Init == /\ arcs = <<>> /\ run = FALSE
        /\ d = [s \in St |-> Zero(Sr)] /\ r = [s \in St |-> Zero(Sr)] /\ q = {}
Grow == /\ ~run /\ Len(arcs) < MaxArcs
        /\ \E c \in ArcChoices : Legal(c) /\ (IF arcs = <<>> THEN TRUE ELSE Rank(c) >= Rank(Last(arcs))) /\ arcs' = Append(arcs, c)
        /\ UNCHANGED <<d, r, q, run>>
Start == /\ ~run /\ run' = TRUE /\ q' = {Src}
         /\ d' = [d EXCEPT ![Src] = One(Sr)] /\ r' = [r EXCEPT ![Src] = One(Sr)]
         /\ UNCHANGED arcs
RECURSIVE Relax(_, _, _)
Relax(as, R, st) ==
  IF as = <<>> THEN st
  ELSE LET a == Head(as)  n == a[3]  w == Mul(Sr, R, a[2])
           st2 == IF Add(Sr, st.d[n], w) = st.d[n] THEN st
                  ELSE [d |-> [st.d EXCEPT ![n] = Add(Sr, @, w)], r |-> [st.r EXCEPT ![n] = Add(Sr, @, w)], q |-> st.q \cup {n}]
       IN  Relax(Tail(as), R, st2)
Take(s) == /\ run /\ s \in q
           /\ LET st == Relax(SelectSeq(arcs, LAMBDA a : a[1] = s), r[s],
                              [d |-> d, r |-> [r EXCEPT ![s] = Zero(Sr)], q |-> q \ {s}])
              IN  d' = st.d /\ r' = st.r /\ q' = st.q
           /\ UNCHANGED <<arcs, run>>
Next == Grow \/ Start \/ \E s \in St : Take(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E s \in St : Take(s))
Mat == [i \in St |-> [j \in St |-> FoldLeft(LAMBDA acc, a : IF a[1] = i /\ a[3] = j THEN Add(Sr, acc, a[2]) ELSE acc, Zero(Sr), arcs)]]
Exact == (run /\ q = {}) => d = StarMat(Sr, Mat, N)[Src]
\* never below what is possible
Sound == (run /\ Sr = "trop") => \A s \in St : d[s] >= StarMat(Sr, Mat, N)[Src][s]
Stops == (run = TRUE) ~> (q = {})
=============================================================================
