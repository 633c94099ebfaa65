------------------------------- MODULE Sigma --------------------------------
(***************************************************************************)
(* Sigma matching.  A transition labelled sigma on the matched side stands *)
(* for one transition per symbol it may match (any symbol, or those of the *)
(* allowed set), besides the ordinary transitions of the state; epsilon is *)
(* never matched by sigma.  The matched label replaces sigma on the        *)
(* matched side, and on both sides when the rewrite mode asks for it       *)
(* ("auto": exactly when the machine is an acceptor).                      *)
(***************************************************************************)
EXTENDS LookAhead

SigmaOps == {"sigcompose"}
MatchLab(t, side) == IF side = 1 THEN OL(t) ELSE IL(t)
SubstSigma(t, side, sig, both, x) ==
  <<IF t[1] = sig /\ (both \/ side = 2) THEN x ELSE t[1],
    IF t[2] = sig /\ (both \/ side = 1) THEN x ELSE t[2], t[3], t[4]>>
ExpandSigma(F, side, sig, both, syms) ==
  LET xs == SetToSeq(syms) IN
  [F EXCEPT !.a = [q \in 1 .. Len(F.a) |-> FlattenSeq([i \in 1 .. Len(F.a[q]) |->
      LET t == F.a[q][i] IN
      IF MatchLab(t, side) # sig THEN <<t>>
      ELSE [k \in 1 .. Len(xs) |-> SubstSigma(t, side, sig, both, xs[k])]])]]

\* does the machine declare itself an acceptor (pair 1)?
RewriteBoth(F, mode) ==
  CASE mode = "always" -> {TRUE}
    [] mode = "never"  -> {FALSE}
    [] OTHER -> IF ~Acceptor(F) THEN {FALSE} ELSE IF BitOf(F.p, 1, FALSE) THEN {TRUE} ELSE {TRUE, FALSE}
SigmaRef(e, ins, both) ==
  LET S == ins[e.side]
      syms == {x \in 1 .. (e.sig - 1) : ~e.lim \/ x \in ToSet(e.allow)}
      X == ExpandSigma(S, e.side, e.sig, both, syms)
  IN  ComposeRef(IF e.side = 1 THEN X ELSE ins[1], IF e.side = 2 THEN X ELSE ins[2], e.sr, SemFilter(e.flt))
SigmaClauses(e, ins) ==
  {MustSucceed(e), WF(e),
   Chk("rel", e.k = "ok" /\ WellFormed(e.v),
       \E both \in RewriteBoth(ins[e.side], e.mode) : RelEq(e.sr, WRel(e.v, e.sr, LOf(e)), WRel(SigmaRef(e, ins, both), e.sr, LOf(e)))),
   Chk("props", e.k = "ok" /\ WellFormed(e.v), PropsSound(e.v, e.sr)),
   Chk("connected", e.k = "ok" /\ e.conn, Connected(e.v))}
=============================================================================
