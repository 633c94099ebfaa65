----------------------------- MODULE TraceProps -----------------------------
(* Trace validation of declared properties: every machine value in the      *)
(* history claims only what is true of it.                                  *)
EXTENDS Props, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bump(js) ==
  TLCSet(1, [k \in DOMAIN TLCGet(1) \cup js |->
               (IF k \in DOMAIN TLCGet(1) THEN TLCGet(1)[k] ELSE 0) + (IF k \in js THEN 1 ELSE 0)])
IsFst(v) == DOMAIN v \cap {"s", "f", "a", "p"} = {"s", "f", "a", "p"}
Values(e) == IF e.op \in {"new", "obs"} THEN <<e.v>>
             ELSE IF "k" \in DOMAIN e /\ e.k = "ok" THEN <<e.v>>
             ELSE IF "k" \in DOMAIN e /\ e.k = "val" /\ e.op \in {"condense", "superfinal", "encode"} THEN <<e.v.fst>>
             ELSE <<>>
\* a final weight zero: neither final nor not
ZeroFinal(F, sr) == \E q \in States(F) : F.f[q + 1] = <<Zero(sr)>>
Judge(e) ==
  LET vs == Values(e) IN
  IF vs = <<>> \/ ~WellFormed(vs[1]) \/ ZeroFinal(vs[1], e.sr) THEN {<<"claims", "vac">>}
  ELSE LET bad == TLCEval(FalseClaims(vs[1], vs[1].p, e.sr)) IN
       IF bad = {} THEN {<<"claims", "ok">>} ELSE {<<"claims:" \o b, "bad">> : b \in bad}
\* properties asked for are decided, and truthfully
Asked(mask, k) == BitOf(mask, k, FALSE) /\ BitOf(mask, k, TRUE)
Report(e) ==
  IF e.op # "m.props" THEN {}
  ELSE IF e.k # "ok" \/ ~WellFormed(e.v) \/ ZeroFinal(e.v, e.sr) THEN {<<"reported", "vac">>}
  ELSE LET bad == TLCEval(FalseClaims(e.v, e.ret, e.sr)) IN
       {<<"reported:" \o b, "bad">> : b \in bad}
       \cup {<<"reported", "ok">>}
       \cup {<<"undecided:" \o PairName[k], "bad">> : k \in
              {k \in 1 .. 16 : Asked(e.mask, k) /\ BitOf(e.ret, k, FALSE) = BitOf(e.ret, k, TRUE)}}
Bad(js) == {j[1] : j \in {x \in js : x[2] = "bad"}}
TraceInit == l = 1 /\ TLCSet(1, << >>) /\ \A i \in 2 .. 9 : TLCSet(i, <<<<>>, 0>>)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN TRUE
     ELSE LET js == TLCEval(Judge(e) \cup Report(e)) IN
          /\ Bump({<<e.op, j[1], j[2]>> : j \in js})
          /\ IF Bad(js) = {} THEN TRUE
             ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(e.c) \o " " \o e.op \o " " \o ToString(Bad(js)))
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted ==
  /\ \A k \in DOMAIN TLCGet(1) : PrintT("CNT " \o k[1] \o " " \o k[2] \o " " \o k[3] \o " " \o ToString(TLCGet(1)[k]))
  /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
