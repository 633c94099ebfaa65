------------------------------ MODULE RustFst -------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is a store of registers      *)
(* holding FST values (what a client program holds in its variables); each *)
(* API call is one action that reads its operand registers and writes its  *)
(* destination register.  A completed call is allowed iff every clause of  *)
(* its contract holds; every other register keeps its value (frame).       *)
(***************************************************************************)
EXTENDS Dispatch
VARIABLE store            \* register (Nat) -> FST value

Put(st, r, v) == [x \in DOMAIN st \cup {r} |-> IF x = r THEN v ELSE st[x]]

Judge(e) ==
  CASE e.op = "new" -> {}
    [] e.op = "obs" -> {Chk("frame", TRUE, [s |-> e.v.s, f |-> e.v.f, a |-> e.v.a]
                              = [s |-> store[e.r].s, f |-> store[e.r].f, a |-> store[e.r].a])}
    \* the driver's own use of accessors and mutators panicked
    [] e.op = "primitive" -> {Total(e)}
    [] OTHER -> Clauses(e, [i \in 1 .. Len(e.in) |-> store[e.in[i]]])

After(e) ==
  CASE e.op \in {"new", "obs"} -> Put(store, e.r, e.v)
    [] OTHER -> IF e.k = "ok" /\ e.out >= 0 THEN Put(store, e.out, e.v) ELSE store

Bad(js) == {j[1] : j \in {x \in js : x[2] = "bad"}}
Allowed(e) == Bad(Judge(e)) = {}

\* The specification proper: only allowed calls happen.
Do(e) == Allowed(e) /\ store' = After(e)
Init == store = << >>
=============================================================================
