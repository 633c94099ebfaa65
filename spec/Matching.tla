------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Matchers.  A matcher of one side of a machine answers, for a state and  *)
(* a requested label, which transitions match it:                          *)
(*   a symbol    the transitions labelled with it on that side;            *)
(*   0 (epsilon) the epsilon transitions and a loop (staying in place);    *)
(*   -1          the transitions that consume nothing: the epsilon ones.   *)
(* A sigma matcher adds, for an allowed symbol, the sigma transitions      *)
(* rewritten to that symbol.  A multi-epsilon matcher treats a set of      *)
(* labels as epsilons: with "list" they also answer the request -1, with   *)
(* "loop" a request for one of them answers a loop.                        *)
(***************************************************************************)
EXTENDS Words

MatchOps == {"match", "matchtype"}
OnSide(F, q, side, l) == SelectSeq(Arcs(F, q), LAMBDA t : MatchLab(t, side) = l)
\* <<number of loops, transitions>>
BaseFind(F, q, side, l) == IF l = -1 THEN <<0, OnSide(F, q, side, 0)>>
                           ELSE <<IF l = 0 THEN 1 ELSE 0, OnSide(F, q, side, l)>>
SigFind(F, q, e, both, l) ==
  LET b == BaseFind(F, q, e.side, l)
      sig == OnSide(F, q, e.side, e.sig)
  IN  IF l <= 0 \/ (e.lim /\ l \notin ToSet(e.allow)) THEN b
      ELSE <<b[1], b[2] \o [i \in 1 .. Len(sig) |-> SubstSigma(sig[i], e.side, e.sig, both, l)]>>
InnerFind(F, q, e, both, l) == IF e.sig = 0 THEN BaseFind(F, q, e.side, l) ELSE SigFind(F, q, e, both, l)
MultiFind(F, q, e, both, l) ==
  LET ms == SetToSortSeq(ToSet(e.meps), LAMBDA a, b : a < b)
      base == InnerFind(F, q, e, both, l)
  IN  CASE l = -1 /\ e.list -> <<base[1], FlattenSeq([i \in 1 .. Len(ms) |-> InnerFind(F, q, e, both, ms[i])[2]]) \o base[2]>>
        [] l > 0 /\ e.loop /\ l \in ToSet(e.meps) -> <<1, <<>>>>
        [] OTHER -> base
\* an answer is <<state, label, loops, transitions>>
AnswerOk(F, e, both, h) == LET x == MultiFind(F, h[1], e, both, h[2]) IN h[3] = x[1] /\ SameBag(h[4], x[2])
Boths(F, e) == IF e.sig = 0 THEN {FALSE} ELSE RewriteBoth(F, e.mode)
SortedOn(F, side) == \A q \in States(F) : \A i \in 1 .. Len(Arcs(F, q)) - 1 :
                        MatchLab(Arcs(F, q)[i], side) <= MatchLab(Arcs(F, q)[i + 1], side)
MatchClauses(e, ins) ==
  LET F == ins[1] IN
  IF e.op = "matchtype"
  THEN {MustSucceed(e),
        \* e.v = <<answer without computing, answer with computing>>: "yes" "no" "unknown"
        Chk("type-tested", e.k = "val", e.v[2] = IF SortedOn(F, e.side) THEN "yes" ELSE "no"),
        Chk("type-declared", e.k = "val", e.v[1] \in {"unknown", IF SortedOn(F, e.side) THEN "yes" ELSE "no"})}
  ELSE {MustSucceed(e),
        Chk("matches", e.k = "val", \E both \in Boths(F, e) : \A i \in 1 .. Len(e.v.a) : AnswerOk(F, e, both, e.v.a[i])),
        Chk("finals", e.k = "val", \A q \in States(F) : e.v.f[q + 1] = F.f[q + 1]),
        \* a state with sigma transitions has to drive the matching
        Chk("sigma-first", e.k = "val" /\ e.sig # 0, \A q \in States(F) : OnSide(F, q, e.side, e.sig) # <<>> => e.v.p[q + 1] = -1),
        Chk("no-sigma-free", e.k = "val", \A q \in States(F) : (e.sig = 0 \/ OnSide(F, q, e.side, e.sig) = <<>>) => e.v.p[q + 1] >= 0)}

(***************************************************************************)
(* Reachability questions behind look-ahead.                               *)
(***************************************************************************)
ReachOps == {"iset", "sreach", "lreach", "lafst"}
\* --- interval sets: the state is <<the points, pending intervals, normalised, failures>>
Points(i) == i[1] .. (i[2] - 1)
PointsOf(s) == UNION {Points(s[i]) : i \in 1 .. Len(s)}
Runs(P) == LET starts == SetToSortSeq({p \in P : p - 1 \notin P}, LAMBDA a, b : a < b)
           IN  [i \in 1 .. Len(starts) |-> <<starts[i], Min({x \in starts[i] .. (Max(P) + 1) : x \notin P})>>]
IStep(st, h) ==
  LET s == st[1] P == PointsOf(s)
      want(c, b) == <<s, st[2], st[3] \cup IF b THEN {} ELSE {c}>>
  IN CASE h[1] = "push" -> <<Append(s, <<h[2], h[3]>>), FALSE, st[3]>>
       [] h[1] = "union" -> <<s \o h[2], FALSE, st[3]>>
       [] h[1] = "clear" -> <<<<>>, TRUE, st[3]>>
       [] h[1] = "norm" -> <<Runs(P), TRUE, st[3]>>
       [] h[1] = "member" -> IF st[2] THEN want("member", h[3] = (h[2] \in P)) ELSE want("member", TRUE)
       [] h[1] = "count" -> IF st[2] /\ h[2] >= 0 THEN want("count", h[2] = Cardinality(P)) ELSE want("count", TRUE)
       [] h[1] = "single" -> IF st[2] THEN want("single", h[2] = (Cardinality(P) = 1)) ELSE want("single", TRUE)
       [] h[1] = "list" -> IF st[2] THEN want("list", h[2] = s) ELSE want("list", SameBag(h[2], s))
ISetClauses(e) ==
  LET fails == IF e.k = "val" THEN FoldLeft(IStep, <<<<>>, TRUE, {}>>, e.v)[3] ELSE {}
  IN {MustSucceed(e)} \cup {Chk(c, e.k = "val", c \notin fails) : c \in {"member", "count", "single", "list"}}
\* --- states
FinalCycle(F) == \E q \in States(F) : F.f[q + 1] # <<>> /\ \E p \in Succ(F, q) : p # q /\ q \in ReachFrom(F, {p}, {p})
SReachClauses(e, ins) ==
  LET F == ins[1] IN
  {Total(e),
   Chk("succeeds", ~FinalCycle(F), e.k = "val"),
   Chk("final-cycle-refused", FinalCycle(F), e.k = "err"),
   Chk("reach", e.k = "val", \A i \in 1 .. Len(e.v) : e.v[i][3] = (e.v[i][2] \in ReachFrom(F, {e.v[i][1]}, {e.v[i][1]})))}
\* --- labels: readable after epsilons on that side
RECURSIVE EpsFrom(_, _, _, _)
EpsFrom(F, side, seen, front) ==
  LET nx == {NS(OnSide(F, q, side, 0)[i]) : <<q, i>> \in {<<q, i>> \in front \X (1 .. 12) : i <= Len(OnSide(F, q, side, 0))}} \ seen
  IN  IF nx = {} THEN seen ELSE EpsFrom(F, side, seen \cup nx, nx)
Readable(F, side, q) == LET C == EpsFrom(F, side, {q}, {q}) IN
  UNION {{MatchLab(Arcs(F, p)[i], side) : i \in 1 .. Len(Arcs(F, p))} : p \in C} \ {0}
FinalEps(F, side, q) == \E p \in EpsFrom(F, side, {q}, {q}) : F.f[p + 1] # <<>>
\* e.v = [labels |-> <<<<state, label, answer>>>>, finals |-> <<<<state, answer>>>>]
LReachClauses(e, ins) ==
  LET F == ins[1]
      R == TLCEval([q \in States(F) |-> Readable(F, e.side, q)])
  IN {MustSucceed(e),
      Chk("label", e.k = "val", \A i \in 1 .. Len(e.v.labels) : LET h == e.v.labels[i] IN h[3] = (h[2] \in R[h[1]])),
      Chk("final", e.k = "val", \A i \in 1 .. Len(e.v.finals) : LET h == e.v.finals[i] IN h[2] = FinalEps(F, e.side, h[1])),
      \* different labels keep different numbers, none is epsilon
      Chk("numbering", e.k = "val", \A i, j \in 1 .. Len(e.v.map) : e.v.map[i][2] > 0 /\ (i # j => e.v.map[i][2] # e.v.map[j][2]))}
\* --- looking ahead from a state of F (matched side e.side) into the other machine G
\* a row is <<state of F, state of G, found, begin, end, weight, has prefix, prefix transition, G's transitions there>>
\* the transitions are given with their original labels, in the order G was sorted into
\* transition look-ahead: what the pair of states can do at once
TrOptions(e, F, G, h) ==
  LET oth == IF e.side = 1 THEN 2 ELSE 1
      ts == h[9]
      lab(i) == MatchLab(ts[i], oth)
  IN (IF F.f[h[1] + 1] # <<>> /\ G.f[h[2] + 1] # <<>> THEN {<<"final", 0>>} ELSE {})
     \cup (IF OnSide(F, h[1], e.side, 0) # <<>> THEN {<<"eps", 0>>} ELSE {})
     \cup {<<"tr", i>> : i \in {i \in 1 .. Len(ts) : lab(i) = 0 \/ OnSide(F, h[1], e.side, lab(i)) # <<>>}}
RowOk(e, F, G, h, what) ==
  LET R == Readable(F, e.side, h[1])
      oth == IF e.side = 1 THEN 2 ELSE 1
      ts == h[9]
      hits == {i \in 1 .. Len(ts) : MatchLab(ts[i], oth) \in R}
      fin == G.f[h[2] + 1] # <<>> /\ FinalEps(F, e.side, h[1])
      w0 == FoldLeft(LAMBDA acc, i : IF i \in hits THEN Add(e.sr, acc, WT(ts[i])) ELSE acc, Zero(e.sr), [i \in 1 .. Len(ts) |-> i])
  IN CASE what = "same" -> SameBag(ts, Arcs(G, h[2]))
       [] what = "found" -> h[3] = IF e.kind = "tr" THEN TrOptions(e, F, G, h) # {} ELSE hits # {} \/ (e.kind = "label" /\ fin)
       [] what = "bounds" -> e.kind # "reach" \/ hits = {} \/ (h[4] = Min(hits) - 1 /\ h[5] = Max(hits))
       [] what = "weight" ->
            \/ ~h[3] \/ ~e.wt \/ h[7] \/ e.kind = "tr"
            \/ h[6] = IF e.kind = "label" /\ fin THEN Add(e.sr, w0, G.f[h[2] + 1][1]) ELSE w0
       [] what = "prefix" /\ e.kind = "tr" -> ~h[7] \/ \E i \in 1 .. Len(ts) : h[8] = ts[i] /\ TrOptions(e, F, G, h) = {<<"tr", i>>}
       [] what = "prefix" -> ~h[7] \/ (~fin /\ Cardinality(hits) = 1 /\ h[8] = ts[CHOOSE i \in hits : TRUE])
LaFstClauses(e, ins) ==
  {MustSucceed(e)} \cup
  {Chk(w, e.k = "val", \A i \in 1 .. Len(e.v) : RowOk(e, ins[1], ins[2], e.v[i], w)) : w \in {"same", "found", "bounds", "weight", "prefix"}}
ReachClauses(e, ins) ==
  CASE e.op = "iset" -> ISetClauses(e)
    [] e.op = "sreach" -> SReachClauses(e, ins)
    [] e.op = "lreach" -> LReachClauses(e, ins)
    [] e.op = "lafst" -> LaFstClauses(e, ins)
=============================================================================
