------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The mutable machine as an exact state machine: every mutator of the     *)
(* MutableFst interface is a function from the table before the call to    *)
(* the table after it and the value it returns; accessors are functions of *)
(* the table.  A refused call (missing state, index out of range) leaves   *)
(* the table as it was.                                                    *)
(***************************************************************************)
EXTENDS Props

Core(F) == [s |-> F.s, f |-> F.f, a |-> F.a]
Has(F, q) == q \in States(F)
SetArcs(F, q, as) == [Core(F) EXCEPT !.a[q + 1] = as]
DelPos(seq, S) == [i \in 1 .. Cardinality(DOMAIN seq \ S) |->
                     seq[CHOOSE j \in DOMAIN seq \ S : Cardinality({k \in DOMAIN seq \ S : k <= j}) = i]]
DelStates(F, S) ==
  LET keep == States(F) \ S
      new(q) == Cardinality({p \in keep : p < q})
      kept == SetToSortSeq(keep, <)
      arcs(q) == LET as == SelectSeq(Arcs(F, q), LAMBDA t : NS(t) \notin S)
                 IN  [i \in DOMAIN as |-> <<IL(as[i]), OL(as[i]), WT(as[i]), new(NS(as[i]))>>]
  IN  [s |-> IF F.s = -1 \/ F.s \in S THEN -1 ELSE new(F.s),
       f |-> [i \in DOMAIN kept |-> F.f[kept[i] + 1]],
       a |-> [i \in DOMAIN kept |-> arcs(kept[i])]]
SetField(t, fld, v) ==
  CASE fld = "i" -> <<v[1], OL(t), WT(t), NS(t)>>
    [] fld = "o" -> <<IL(t), v[2], WT(t), NS(t)>>
    [] fld = "io" -> <<v[1], v[2], WT(t), NS(t)>>
    [] fld = "w" -> <<IL(t), OL(t), v[3], NS(t)>>
    [] fld = "n" -> <<IL(t), OL(t), WT(t), v[4]>>
    [] fld = "t" -> v

\* calls whose table after the call is determined by the table before
MutOps == {"m.set_start", "m.set_final", "m.add_state", "m.add_states", "m.add_tr", "m.del_state",
           "m.del_states", "m.del_all", "m.del_final", "m.take_final", "m.del_trs", "m.pop_trs", "m.del_trs_ids",
           "m.set_trs", "m.iter", "m.props", "m.clone", "m.alloc", "m.const", "m.rebuild"}
Legal(F, e) ==
  CASE e.op \in {"m.set_start", "m.set_final", "m.add_tr", "m.del_state", "m.del_final", "m.take_final",
                 "m.del_trs", "m.pop_trs", "m.set_trs", "m.del_trs_ids"} -> Has(F, e.q)
    [] e.op = "m.del_states" -> ToSet(e.qs) \subseteq States(F)
    [] e.op = "m.iter" -> Has(F, e.q) /\ e.i + 1 \in DOMAIN Arcs(F, e.q)
    [] OTHER -> TRUE
Mutate(F, e) ==
  CASE e.op = "m.set_start" -> [Core(F) EXCEPT !.s = e.q]
    [] e.op = "m.set_final" -> [Core(F) EXCEPT !.f[e.q + 1] = <<e.w>>]
    [] e.op = "m.add_state" -> [Core(F) EXCEPT !.f = Append(@, <<>>), !.a = Append(@, <<>>)]
    [] e.op = "m.add_states" -> [Core(F) EXCEPT !.f = @ \o [i \in 1 .. e.n |-> <<>>], !.a = @ \o [i \in 1 .. e.n |-> <<>>]]
    [] e.op = "m.add_tr" -> SetArcs(F, e.q, Append(Arcs(F, e.q), e.t))
    [] e.op = "m.del_state" -> DelStates(F, {e.q})
    [] e.op = "m.del_states" -> DelStates(F, ToSet(e.qs))
    [] e.op = "m.del_all" -> EmptyFst
    [] e.op \in {"m.del_final", "m.take_final"} -> [Core(F) EXCEPT !.f[e.q + 1] = <<>>]
    [] e.op \in {"m.del_trs", "m.pop_trs"} -> SetArcs(F, e.q, <<>>)
    [] e.op = "m.del_trs_ids" -> SetArcs(F, e.q, DelPos(Arcs(F, e.q), {i + 1 : i \in ToSet(e.ids)}))
    [] e.op = "m.set_trs" -> SetArcs(F, e.q, e.ts)
    [] e.op = "m.iter" -> SetArcs(F, e.q, [Arcs(F, e.q) EXCEPT ![e.i + 1] = SetField(@, e.fld, e.t)])
    [] OTHER -> Core(F)
\* returned values (<<>> when the call returns nothing)
Returned(F, e) ==
  CASE e.op = "m.add_state" -> <<NumStates(F)>>
    [] e.op = "m.take_final" -> F.f[e.q + 1]
    [] e.op = "m.pop_trs" -> Arcs(F, e.q)
    [] OTHER -> <<>>
MutClauses(e, ins) ==
  LET F == ins[1] IN
  IF ~Legal(F, e) THEN {Chk("refused", TRUE, e.k = "err")}
  ELSE {Chk("table", TRUE, e.k = "ok" /\ Core(e.v) = Mutate(F, e)),
        Chk("returned", e.k = "ok" /\ e.op # "m.props", e.ret = Returned(F, e))}

\* in-place reordering of the transitions of one state
SortedArcs(as, by) ==
  \A i \in 1 .. Len(as) - 1 :
    CASE by = "i" -> IL(as[i]) <= IL(as[i + 1])
      [] by = "o" -> OL(as[i]) <= OL(as[i + 1])
      [] by = "w" -> WT(as[i]) <= WT(as[i + 1])
      [] OTHER -> TRUE
Keys(as) == {<<IL(as[i]), OL(as[i]), NS(as[i])>> : i \in DOMAIN as}
SumFor(sr, as, k) == FoldLeft(LAMBDA acc, t : IF <<IL(t), OL(t), NS(t)>> = k THEN Add(sr, acc, WT(t)) ELSE acc, Zero(sr), as)
SamePerm(as, bs) ==
  Len(as) = Len(bs) /\ \A t \in ToSet(as) \cup ToSet(bs) :
    Cardinality({i \in DOMAIN as : as[i] = t}) = Cardinality({i \in DOMAIN bs : bs[i] = t})
ReorderOps == {"m.sort", "m.unique", "m.sum"}
ReorderClauses(e, ins) ==
  LET F == ins[1]
      as == Arcs(F, e.q)
      bs == Arcs(e.v, e.q)
  IN {Chk("total", TRUE, e.k = "ok"),
      Chk("others-unchanged", e.k = "ok", SetArcs(e.v, e.q, <<>>) = SetArcs(F, e.q, <<>>)),
      Chk("sorted-permutation", e.k = "ok" /\ e.op = "m.sort", SamePerm(as, bs) /\ SortedArcs(bs, e.by)),
      Chk("unique", e.k = "ok" /\ e.op = "m.unique", ToSet(as) = ToSet(bs) /\ Len(bs) = Cardinality(ToSet(as))),
      Chk("summed", e.k = "ok" /\ e.op = "m.sum",
          /\ Keys(as) = Keys(bs) /\ Len(bs) = Cardinality(Keys(as))
          /\ \A i \in DOMAIN bs : LET t == bs[i] IN WEq(e.sr, WT(t), SumFor(e.sr, as, <<IL(t), OL(t), NS(t)>>)))}

\* accessors: everything a client can read is a function of the table
NEps(F, q, k) == Cardinality({i \in DOMAIN Arcs(F, q) : Arcs(F, q)[i][k] = 0})
Read(F, sr) ==
  LET n == NumStates(F) IN
  [n |-> n, s |-> F.s, f |-> F.f, a |-> F.a,
   nt |-> [i \in 1 .. n |-> Len(F.a[i])],
   ni |-> [i \in 1 .. n |-> NEps(F, i - 1, 1)],
   no |-> [i \in 1 .. n |-> NEps(F, i - 1, 2)],
   fin |-> [i \in 1 .. n |-> IF F.f[i] # <<>> /\ F.f[i][1] # Zero(sr) THEN 1 ELSE 0],
   st |-> [i \in 1 .. n |-> IF F.s = i - 1 THEN 1 ELSE 0]]
\* e.v.X : the same reading obtained through each family of accessors
ReadClauses(e, ins) ==
  IF e.k # "val" THEN {Chk("total", TRUE, FALSE)}
  ELSE {Chk("read-" \o k, TRUE, e.v[k] = [x \in DOMAIN e.v[k] |-> IF x = "oob" THEN 1 ELSE Read(ins[1], e.sr)[x]])
          : k \in DOMAIN e.v}
EqClauses(e, ins) ==
  {Chk("equality", TRUE, e.k = "val" /\ (e.v = 1) = (Core(ins[1]) = Core(ins[2])))}
\* a list of transitions handed out earlier keeps the content it had then
HeldClauses(e, ins) == {Chk("snapshot", TRUE, e.k = "val" /\ e.v = e.was)}
TableOps == MutOps \cup ReorderOps \cup {"m.read", "m.eq", "m.held"}
TableClauses(e, ins) ==
  CASE e.op \in MutOps -> MutClauses(e, ins)
    [] e.op \in ReorderOps -> ReorderClauses(e, ins)
    [] e.op = "m.read" -> ReadClauses(e, ins)
    [] e.op = "m.eq" -> EqClauses(e, ins)
    [] e.op = "m.held" -> HeldClauses(e, ins)
=============================================================================
