-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool.  A run that succeeds is judged by the contract   *)
(* of the operation it names; this module adds what a run that cannot      *)
(* succeed must look like: a failure status, and no output file.           *)
(***************************************************************************)
EXTENDS Sigma

CliOps == {"cli.bad"}
CliClauses(e, ins) ==
  {Chk("no-panic", TRUE, e.k = "val"),
   Chk("failure-status", e.k = "val", e.v.code # 0),
   Chk("nothing-written", e.k = "val", ~e.v.written)}
=============================================================================
