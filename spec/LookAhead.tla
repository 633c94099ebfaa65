----------------------------- MODULE LookAhead -----------------------------
(***************************************************************************)
(* Look-ahead composition.  Pruning by look-ahead and pushing labels or    *)
(* weights while composing change the machine that is built, never the     *)
(* weighted relation: it is that of plain composition, whatever the look-  *)
(* ahead matcher, its flags and the stack of filters.                      *)
(***************************************************************************)
EXTENDS Pipeline

\* Pushing weights while composing rounds them to multiples of 1/1024 (in the log
\* domain) once per transition: in "real" the sums agree up to these roundings.
NearRel(R, S) == \A p \in DOMAIN R \cup DOMAIN S :
  LET a == RelAt("real", R, p)  b == RelAt("real", S, p)
  IN  a = UNDEF \/ b = UNDEF \/ AbsI(a - b) <= 256 + MaxI(a, b) \div 64
LaEq(e, R, S) == IF e.sr = "real" /\ e.stack \in {1, 3} THEN NearRel(R, S) ELSE RelEq(e.sr, R, S)

LaOps == {"lacompose"}
LaClauses(e, ins) ==
  {MustSucceed(e), WF(e),
   Chk("rel", e.k = "ok" /\ WellFormed(e.v), LaEq(e, WRel(e.v, e.sr, LOf(e)),
        Memo(2, <<ins, e.sr, "seq", LOf(e)>>, WRel(ComposeRef(ins[1], ins[2], e.sr, "seq"), e.sr, LOf(e)))))}
=============================================================================
