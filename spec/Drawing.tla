------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* Drawings.  The DOT file of a machine with a start state shows every     *)
(* state once (numbered, doubly circled iff final, bold iff start) and     *)
(* every transition once, with its labels (spelt by the attached symbol    *)
(* tables, by number without one, the output label only for transducers)   *)
(* and its weight, unless weights are hidden, or one and ones are hidden.  *)
(* A label its table does not know is an error.  A machine without a start *)
(* draws as nothing.  The figure is laid out as its configuration says.     *)
(***************************************************************************)
EXTENDS Tapes

DrawOps == {"draw"}
Shown(e, w) == IF e.pw /\ (e.sone \/ w # One(e.sr)) THEN <<w>> ELSE <<>>
\* label l under a table of n symbols (0: no table), whose symbols are of kind k
Spelt(l, n, k) == IF n = 0 THEN <<0, l>> ELSE IF l = 0 THEN <<3, 0>> ELSE <<k, l>>
NodesOf(e, F) == {<<q, q, IF IsFinal(F, q) THEN 1 ELSE 0, IF q = F.s THEN 1 ELSE 0,
                    IF IsFinal(F, q) THEN Shown(e, FinalW(F, e.sr, q)) ELSE <<>>>> : q \in States(F)}
EdgesOf(e, F) == Flat([i \in 1 .. NumStates(F) |->
  [j \in 1 .. Len(F.a[i]) |->
    LET t == F.a[i][j]
    IN  <<i - 1, NS(t), Spelt(IL(t), e.it, 1), IF e.acc THEN <<>> ELSE <<Spelt(OL(t), e.ot, 2)>>, Shown(e, WT(t))>>]])
Spellable(F, n, k) == n = 0 \/ \A l \in LabelsOf(F, k) : l <= n
\* e.lay = <<vertical, portrait, title, size, rank separation, node separation, font size>>
LayoutOf(e) == <<IF e.lay[1] THEN "BT" ELSE "LR", IF e.lay[2] THEN "Portrait" ELSE "Landscape",
                 e.lay[3], e.lay[4], e.lay[5], e.lay[6]>>
DrawClauses(e, ins) ==
  LET F == ins[1]
      can == F.s = -1 \/ (Spellable(F, e.it, 1) /\ Spellable(F, e.ot, 2))
      on == e.k = "val" /\ F.s # -1
  IN {Chk("no-panic", TRUE, e.k # "panic"),
      Chk("drawn", can, e.k = "val"),
      Chk("unknown-label", ~can /\ ~e.acc, e.k = "err"),
      Chk("unknown-input-label", F.s # -1 /\ ~Spellable(F, e.it, 1), e.k = "err"),
      Chk("well-formed", on, e.v.bal),
      Chk("states", on, SameBag(e.v.n, SetToSeq(NodesOf(e, F)))),
      Chk("start-first", on, e.v.n # <<>> /\ e.v.n[1][1] = F.s),
      Chk("transitions", on, SameBag(e.v.e, EdgesOf(e, F))),
      Chk("layout", on /\ "lay" \in DOMAIN e, e.v.h = LayoutOf(e) /\ e.v.fonts = <<e.lay[7]>>),
      Chk("nothing-to-draw", e.k = "val" /\ F.s = -1, e.v.blank)}
=============================================================================
