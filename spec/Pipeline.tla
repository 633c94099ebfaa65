------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Sequences of meaning-preserving operations on one machine.  Steps with  *)
(* a contract of their own are judged by it; a "keep" step (optimize, a    *)
(* detour through an encoding, a file, a reversal ...) has to leave the    *)
(* weighted relation alone; "pipe" compares the end with the beginning.    *)
(***************************************************************************)
EXTENDS PathIter

KeepClauses(e, ins) ==
  {MustSucceed(e), WF(e),
   Chk("rel", e.k = "ok" /\ WellFormed(e.v), SameRel(e.v, ins[1], e.sr, LOf(e)))}
PipeClauses(e, ins) ==
  {Chk("end-to-end", TRUE, SameRel(ins[2], ins[1], e.sr, LOf(e)))}
=============================================================================
