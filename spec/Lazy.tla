-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* On-demand machines.  A lazy machine denotes one fixed table; a session  *)
(* is a multiset of queries answered to any number of threads in any       *)
(* order.  Every answer is a function of that table only, the table is the *)
(* one the client gets by materialising the machine, and another access    *)
(* order leads to the same table up to the numbering of states.            *)
(* (MC_LazyCache checks the cache and state-table protocol behind this for *)
(* all interleavings.)                                                     *)
(***************************************************************************)
EXTENDS Table

Answer(F, sr, k, q) ==
  CASE k = "s" -> <<F.s>>
    [] k = "f" -> F.f[q + 1]
    [] k = "t" -> F.a[q + 1]
    [] k = "nt" -> <<Len(F.a[q + 1])>>
    [] k = "ni" -> <<NEps(F, q, 1)>>
    [] k = "no" -> <<NEps(F, q, 2)>>
    [] k = "fin" -> <<IF F.f[q + 1] # <<>> /\ F.f[q + 1][1] # Zero(sr) THEN 1 ELSE 0>>
    [] k = "it" -> [i \in 1 .. NumStates(F) |-> i - 1]
    [] k = "st" -> <<IF F.s = q THEN 1 ELSE 0>>

\* numbering by breadth-first visit in transition order
RECURSIVE Visit(_, _, _)
Visit(F, seen, i) ==
  IF i > Len(seen) THEN seen
  ELSE LET new == FoldLeft(LAMBDA acc, t : IF NS(t) \in ToSet(acc) THEN acc ELSE Append(acc, NS(t)), seen, Arcs(F, seen[i]))
       IN  Visit(F, new, i + 1)
Numbered(F) ==
  IF F.s = -1 THEN EmptyFst
  ELSE LET ord == TLCEval(Visit(F, <<F.s>>, 1))
           id(q) == (CHOOSE i \in DOMAIN ord : ord[i] = q) - 1
       IN  [s |-> 0, f |-> [i \in DOMAIN ord |-> F.f[ord[i] + 1]],
            a |-> [i \in DOMAIN ord |-> [j \in DOMAIN Arcs(F, ord[i]) |->
                     LET t == Arcs(F, ord[i])[j] IN <<IL(t), OL(t), WT(t), id(NS(t))>>]]]
SessionClauses(e, ins) ==
  LET ok == e.k = "ok" /\ WellFormed(e.v)
  IN {Chk("total", TRUE, e.k = "ok" \/ e.mayfail),
      Chk("answers", e.k = "ok", ok /\ \A i \in DOMAIN e.ans :
            LET x == e.ans[i] IN x.q \in States(e.v) \cup {-1} /\ x.r = Answer(e.v, e.sr, x.k, x.q)),
      Chk("same-table-up-to-numbering", ok, WellFormed(e.seq) /\ Numbered(e.v) = Numbered(e.seq)),
      Chk("exact-table", ok /\ e.of = "table",
          e.v.s = ins[1].s /\ \A q \in AccStates(ins[1]) :
             q \in States(e.v) /\ e.v.f[q + 1] = ins[1].f[q + 1] /\ e.v.a[q + 1] = ins[1].a[q + 1])}
=============================================================================
