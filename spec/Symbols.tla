------------------------------- MODULE Symbols -------------------------------
(***************************************************************************)
(* Symbol tables.  A table is a sequence of distinct symbols; the label of *)
(* a symbol is its position, from zero.  Registers of the store hold       *)
(* tables; every call is a function of them.                               *)
(***************************************************************************)
EXTENDS Files

Eps == "<eps>"
AddSym(S, x) == IF x \in ToSet(S) THEN S ELSE Append(S, x)
AddSyms(S, xs) == FoldLeft(AddSym, S, xs)
LabelOf(S, x) == IF x \in ToSet(S) THEN (CHOOSE i \in DOMAIN S : S[i] = x) - 1 ELSE -1
Bijective(S) == \A i, j \in DOMAIN S : S[i] = S[j] => i = j

AfterCall(e, ins) ==
  CASE e.op = "y.new" -> (IF e.via = "empty" THEN <<>> ELSE IF e.via = "symt" THEN <<Eps, "a", "b">> ELSE <<Eps>>)
    [] e.op = "y.add" -> AddSym(ins[1], e.x)
    [] e.op = "y.addall" -> AddSyms(ins[1], e.x)
    [] e.op = "y.merge" -> AddSyms(ins[1], ins[2])
    [] e.op = "y.copy" -> ins[1]
ViewOk(S, v) ==
  LET n == Len(S)
  IN  /\ v.len = n /\ v.empty = (n = 0)
      /\ v.labels = [i \in 1 .. n |-> i - 1]
      /\ v.symbols = S
      /\ v.iter = [i \in 1 .. n |-> <<i - 1, S[i]>>]
      /\ \A i \in DOMAIN v.q : LET x == v.q[i] IN x[2] = LabelOf(S, x[1]) /\ x[3] = (IF x[1] \in ToSet(S) THEN 1 ELSE 0)
      /\ \A i \in DOMAIN v.l : LET x == v.l[i] IN
           IF x[1] < n THEN x[2] = 1 /\ x[3] = <<S[x[1] + 1]>> ELSE x[2] = 0 /\ x[3] = <<>>
SymbolOps == {"y.new", "y.add", "y.addall", "y.merge", "y.copy", "y.eq", "y.view"}
SymbolClauses(e, ins) ==
  IF e.op = "y.eq" THEN {Chk("total", TRUE, e.k = "val"), Chk("equality", e.k = "val", e.v = (ins[1] = ins[2]))}
  ELSE IF e.op = "y.view" THEN {Chk("total", TRUE, e.k = "val"), Chk("answers", e.k = "val", ViewOk(ins[1], e.v))}
  ELSE {Chk("total", TRUE, e.k = "ok"),
        Chk("table", e.k = "ok", e.v = AfterCall(e, ins) /\ Bijective(e.v)),
        Chk("label", e.k = "ok" /\ e.op = "y.add", e.ret = LabelOf(AfterCall(e, ins), e.x))}
=============================================================================
