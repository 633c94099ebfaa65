------------------------------- MODULE Tapes -------------------------------
(***************************************************************************)
(* Symbol tables travel with the tape they describe.                       *)
(*                                                                         *)
(* A table is a code (0: none attached).  Every operation says which tape  *)
(* of which operand its two tapes come from: an operation that keeps the   *)
(* tapes keeps their tables, inversion exchanges them, projection gives    *)
(* both tapes the table of the tape kept, composition takes the outer      *)
(* ones, union / concatenation / replacement take those of the first       *)
(* (root) operand, relabelling by tables attaches the new tables or none.  *)
(***************************************************************************)
EXTENDS Cli

TapeOps == {"tape"}

(* e.t = <<<<in, out>> of the first operand, <<in, out>> of the second>>   *)
TapeOf(e) ==
  CASE e.fam = "same"  -> e.t[1]
    [] e.fam = "first" -> e.t[1]
    [] e.fam = "outer" -> <<e.t[1][1], e.t[2][2]>>
    [] e.fam = "swap"  -> <<e.t[1][2], e.t[1][1]>>
    [] e.fam = "in"    -> <<e.t[1][1], e.t[1][1]>>
    [] e.fam = "out"   -> <<e.t[1][2], e.t[1][2]>>
    [] e.fam = "new"   -> <<IF e.at[1] = 1 THEN 5 ELSE 0, IF e.at[2] = 1 THEN 6 ELSE 0>>

(* Relabelling by tables needs an old table per tape: given, or attached.  *)
Relabellable(e) == \A i \in 1 .. 2 : e.old[i] # 0 \/ e.t[1][i] # 0

TapeClauses(e, ins) ==
  IF e.fam = "new" /\ ~Relabellable(e)
  THEN {Chk("no-panic", TRUE, e.k # "panic"), Chk("refused", TRUE, e.k = "err")}
  ELSE {Chk("no-panic", TRUE, e.k # "panic"),
        Chk("no-error", TRUE, e.k = "val"),
        Chk("input-table", e.k = "val", e.v[1] = TapeOf(e)[1]),
        Chk("output-table", e.k = "val", e.v[2] = TapeOf(e)[2])}
=============================================================================
