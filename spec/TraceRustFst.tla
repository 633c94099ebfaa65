---------------------------- MODULE TraceRustFst ----------------------------
(***************************************************************************)
(* Trace validation: replays a recorded history against RustFst.  Every    *)
(* event is consumed; events that are not allowed by the specification are *)
(* reported (BAD line) and the history continues from the logged state.    *)
(***************************************************************************)
EXTENDS RustFst, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Bump(js) ==
  TLCSet(1, [k \in DOMAIN TLCGet(1) \cup js |->
               (IF k \in DOMAIN TLCGet(1) THEN TLCGet(1)[k] ELSE 0) + (IF k \in js THEN 1 ELSE 0)])

TraceInit == Init /\ l = 1 /\ TLCSet(1, << >>) /\ \A i \in 2 .. 9 : TLCSet(i, <<<<>>, 0>>)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN store' = << >>
     ELSE LET js == TLCEval(Judge(e)) IN
          /\ store' = After(e)
          /\ Bump({<<e.op, j[1], j[2]>> : j \in js})
          /\ IF Bad(js) = {} THEN TRUE
             ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(e.c) \o " " \o e.op \o " " \o ToString(Bad(js)))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, store>>
Accepted ==
  /\ \A k \in DOMAIN TLCGet(1) : PrintT("CNT " \o k[1] \o " " \o k[2] \o " " \o k[3] \o " " \o ToString(TLCGet(1)[k]))
  /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
