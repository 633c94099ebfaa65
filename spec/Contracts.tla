----------------------------- MODULE Contracts ------------------------------
(***************************************************************************)
(* One contract per API call.  Clauses(e, ins) is the set of judgements    *)
(* <<clause, "ok" | "vac" | "bad">> for a completed call e on the FST       *)
(* values ins.  A call is allowed iff no clause is "bad".                  *)
(***************************************************************************)
EXTENDS Refs

Chk(name, guard, cond) == IF ~guard THEN <<name, "vac">> ELSE IF cond THEN <<name, "ok">> ELSE <<name, "bad">>
Arg(e, f, dflt) == IF f \in DOMAIN e THEN e[f] ELSE dflt
LOf(e) == Arg(e, "L", 3)
\* remembers the last value computed for a slot; same meaning as val (trace validation initialises the slots)
Memo(slot, key, val) ==
  IF TLCGet(slot)[1] = key THEN TLCGet(slot)[2]
  ELSE LET v == TLCEval(val) IN IF TLCSet(slot, <<key, v>>) THEN v ELSE v

\* the outcome is a value, never a panic / hang / crash
Total(e) == Chk("total", TRUE, e.k \notin {"panic", "hang", "crash"})
MustSucceed(e) == Chk("succeeds", TRUE, e.k \in {"ok", "val"})

SameAs(e, R) ==
  Chk("rel", e.k = "ok", WellFormed(e.v) /\ SameRel(e.v, R, e.sr, LOf(e)))
WF(e) == Chk("wf", e.k = "ok", WellFormed(e.v))

RationalOps == {"union", "concat", "closure"}
RationalClauses(e, ins) ==
  {MustSucceed(e), WF(e)} \cup
  CASE e.op = "union"   -> {SameAs(e, UnionRef(ins[1], ins[2], e.sr))}
    [] e.op = "concat"  -> {SameAs(e, ConcatRef(ins[1], ins[2], e.sr))}
    [] e.op = "closure" -> {SameAs(e, ClosureRef(ins[1], e.sr, e.kind))}

(* compose(A, B): the weighted composition of the relations.  The library   *)
(* needs A sorted on output labels or B sorted on input labels and reports   *)
(* an error exactly when neither holds.                                      *)
SemFilter(flt) == IF flt \in {"auto", "sequence", "altsequence", "match"} THEN "seq" ELSE flt
ComposeClauses(e, ins) ==
  LET srt == OLabelSorted(ins[1]) \/ ILabelSorted(ins[2]) IN
  {Total(e), WF(e),
   Chk("sorted-ok", srt, e.k = "ok"),
   Chk("unsorted-err", ~srt, e.k = "err"),
   Chk("rel", srt /\ e.k = "ok", RelEq(e.sr, WRel(e.v, e.sr, LOf(e)),
        Memo(2, <<ins, e.sr, SemFilter(e.flt), LOf(e)>>, WRel(ComposeRef(ins[1], ins[2], e.sr, SemFilter(e.flt)), e.sr, LOf(e))))),
   Chk("connected", e.k = "ok" /\ e.conn, Connected(e.v))}

----------------------------------------------------------------------------
\* Structural equality of FST values, weights compared in the semiring.
SeqWEq(sr, u, v) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : WEq(sr, u[i], v[i])
ArcWEq(sr, t, u) == t[1] = u[1] /\ t[2] = u[2] /\ t[4] = u[4] /\ WEq(sr, t[3], u[3])
SameStruct(sr, F, G) ==
  /\ F.s = G.s /\ Len(F.f) = Len(G.f) /\ Len(F.a) = Len(G.a)
  /\ \A q \in 1 .. Len(F.f) :
       /\ SeqWEq(sr, F.f[q], G.f[q])
       /\ Len(F.a[q]) = Len(G.a[q])
       /\ \A i \in 1 .. Len(F.a[q]) : ArcWEq(sr, F.a[q][i], G.a[q][i])
Struct(e, R) == Chk("struct", e.k = "ok", SameStruct(e.sr, e.v, R))

\* label substitution given as a sequence of <<from, to>> pairs
SubstL(ps, x) == IF \E i \in 1 .. Len(ps) : ps[i][1] = x
                 THEN ps[CHOOSE i \in 1 .. Len(ps) : ps[i][1] = x][2] ELSE x
DupKeys(ps) == \E i, j \in 1 .. Len(ps) : i # j /\ ps[i][1] = ps[j][1]
RelabelRef(F, ip, op) == MapArcs(F, LAMBDA t : <<SubstL(ip, t[1]), SubstL(op, t[2]), t[3], t[4]>>)

\* weight-mapping of arcs and finals
MapWeights(F, Op(_)) ==
  [s |-> F.s,
   f |-> [q \in 1 .. Len(F.f) |-> IF F.f[q] = <<>> THEN <<>> ELSE <<Op(F.f[q][1])>>],
   a |-> [q \in 1 .. Len(F.a) |-> [i \in 1 .. Len(F.a[q]) |->
            <<F.a[q][i][1], F.a[q][i][2], Op(F.a[q][i][3]), F.a[q][i][4]>>]]]
TrMapRef(F, sr, e) ==
  IF F.s = -1 THEN F
  ELSE CASE e.m = "identity" -> F
         [] e.m = "ieps" -> MapArcs(F, LAMBDA t : <<0, t[2], t[3], t[4]>>)
         [] e.m = "oeps" -> MapArcs(F, LAMBDA t : <<t[1], 0, t[3], t[4]>>)
         [] e.m = "rmweight" -> MapWeights(F, LAMBDA w : IF w = Zero(sr) THEN w ELSE One(sr))
         [] e.m = "times" -> MapWeights(F, LAMBDA w : Mul(sr, w, e.w))
         [] e.m = "plus" -> MapWeights(F, LAMBDA w : Add(sr, w, e.w))
         [] e.m = "quantize" -> F
         [] e.m = "invertw" -> MapWeights(F, LAMBDA w : -w)
         [] e.m \in {"allow", "require"} ->
              \* custom mapper: final weights move onto lab:lab arcs to a superfinal state;
              \* in "allow" mode only the final weights other than One do
              LET n == NumStates(F)
                  moves(q) == F.f[q] # <<>> /\ (e.m = "require" \/ ~WEq(sr, F.f[q][1], One(sr)))
                  any == e.m = "require" \/ \E q \in 1 .. n : moves(q)
              IN  [s |-> F.s,
                   f |-> [q \in 1 .. n |-> IF moves(q) THEN <<>> ELSE F.f[q]] \o (IF any THEN <<<<One(sr)>>>> ELSE <<>>),
                   a |-> [q \in 1 .. n |-> IF moves(q) THEN Append(F.a[q], <<e.lab, e.lab, F.f[q][1], n>>) ELSE F.a[q]]
                          \o (IF any THEN << <<>> >> ELSE <<>>)]

MorphismOps == {"invert", "project", "reverse", "relabel", "tr_map", "convert", "wconvert"}
RevRel(R) == LET key(p) == <<Reverse(p[1]), Reverse(p[2])>> IN [p \in {key(q) : q \in DOMAIN R} |-> R[key(p)]]
MorphismClauses(e, ins) ==
  LET F == ins[1] IN
  CASE e.op = "invert"  -> {MustSucceed(e), Struct(e, InvertRef(F))}
    [] e.op = "project" -> {MustSucceed(e), Struct(e, ProjectRef(F, e.side))}
    [] e.op = "reverse" -> {MustSucceed(e), WF(e),
                            Chk("rel", e.k = "ok", RelEq(e.sr, WRel(e.v, e.sr, LOf(e)), RevRel(WRel(F, e.sr, LOf(e)))))}
    [] e.op = "relabel" -> {Total(e),
                            Chk("dup-err", DupKeys(e.ip) \/ DupKeys(e.op2), e.k = "err"),
                            Chk("ok", ~(DupKeys(e.ip) \/ DupKeys(e.op2)), e.k = "ok"),
                            Chk("struct", e.k = "ok", SameStruct(e.sr, e.v, RelabelRef(F, e.ip, e.op2)))}
    [] e.op = "tr_map"  -> {MustSucceed(e), Struct(e, TrMapRef(F, e.sr, e))}
    [] e.op = "convert" -> {MustSucceed(e), Struct(e, F)}
    \* weight_convert yields the empty machine when there is no start state
    [] e.op = "wconvert" -> {MustSucceed(e), Chk("struct", e.k = "ok",
                              SameStruct(e.sr, e.v, IF F.s = -1 THEN EmptyFst ELSE TrMapRef(F, e.sr, e)))}

----------------------------------------------------------------------------
\* Operations that reorganise a machine without changing its meaning.
SameRelAs(e, F) == Chk("rel", e.k = "ok", SameRel(e.v, F, e.sr, LOf(e)))
CountIn(seq, x) == Cardinality({i \in 1 .. Len(seq) : seq[i] = x})
PermOf(u, v) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : CountIn(u, u[i]) = CountIn(v, u[i])
Key3(t) == <<t[1], t[2], t[4]>>
SumKey(sr, arcs, k) == FoldLeft(LAMBDA acc, t : IF Key3(t) = k THEN Add(sr, acc, t[3]) ELSE acc, Zero(sr), arcs)
Permute(F, ord) ==   \* state q becomes ord[q+1]
  LET n == NumStates(F)
      inv(k) == CHOOSE q \in 1 .. n : ord[q] = k - 1
  IN  [s |-> IF F.s = -1 THEN -1 ELSE ord[F.s + 1],
       f |-> [k \in 1 .. n |-> F.f[inv(k)]],
       a |-> [k \in 1 .. n |-> [i \in 1 .. Len(F.a[inv(k)]) |->
               LET t == F.a[inv(k)][i] IN <<t[1], t[2], t[3], ord[t[4] + 1]>>]]]
UsefulArcs(F) == LET U == UsefulStates(F) IN
  Cardinality({qi \in ArcSet(F) : qi[1] \in U /\ NS(Arcs(F, qi[1])[qi[2]]) \in U})
SameScc(F, p, q) == p = q \/ (q \in ReachFrom(F, Succ(F, p), Succ(F, p)) /\ p \in ReachFrom(F, Succ(F, q), Succ(F, q)))
CondenseRef(F, sr, scc) ==
  LET n == NumStates(F)
      m == IF n = 0 THEN 0 ELSE 1 + Max({scc[i] : i \in 1 .. n})
      members(c) == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : scc[i] = c)
  IN  [s |-> IF F.s = -1 THEN -1 ELSE scc[F.s + 1],
       f |-> [c \in 1 .. m |-> LET ms == SelectSeq(members(c - 1), LAMBDA i : F.f[i] # <<>>)
               IN  IF ms = <<>> THEN <<>> ELSE <<SumSeq(sr, [j \in 1 .. Len(ms) |-> F.f[ms[j]][1]])>>],
       a |-> [c \in 1 .. m |-> LET ms == members(c - 1) IN
               FlattenSeq([j \in 1 .. Len(ms) |->
                 LET out == SelectSeq(F.a[ms[j]], LAMBDA t : scc[t[4] + 1] # c - 1)
                 IN [i \in 1 .. Len(out) |-> <<out[i][1], out[i][2], out[i][3], scc[out[i][4] + 1]>>]])]]
SameUpToArcOrder(sr, F, G) ==
  /\ F.s = G.s /\ Len(F.f) = Len(G.f) /\ Len(F.a) = Len(G.a)
  /\ \A q \in 1 .. Len(F.f) : SeqWEq(sr, F.f[q], G.f[q]) /\ Len(F.a[q]) = Len(G.a[q])
        /\ \A i \in 1 .. Len(F.a[q]) : Cardinality({j \in 1 .. Len(F.a[q]) : ArcWEq(sr, F.a[q][i], F.a[q][j])})
                                        = Cardinality({j \in 1 .. Len(G.a[q]) : ArcWEq(sr, F.a[q][i], G.a[q][j])})

TidyOps == {"connect", "tr_sort", "state_sort", "top_sort", "tr_sum", "tr_unique", "condense", "rm_final_eps", "superfinal"}
TidyClauses(e, ins) ==
  LET F == ins[1]  sr == e.sr  ok == e.k = "ok" IN
  CASE e.op = "connect" ->
         {MustSucceed(e), WF(e), SameRelAs(e, F),
          Chk("trim", ok, Connected(e.v)),
          Chk("keeps", ok /\ \A q \in States(F) : F.f[q + 1] # <<Zero(sr)>>, NumStates(e.v) = Cardinality(UsefulStates(F)) /\ Cardinality(ArcSet(e.v)) = UsefulArcs(F))}
    [] e.op = "tr_sort" ->
         {MustSucceed(e),
          Chk("perm", ok, SameUpToArcOrder(sr, F, e.v)),
          Chk("sorted", ok, IF e.side = "in" THEN ILabelSorted(e.v) ELSE OLabelSorted(e.v))}
    [] e.op = "state_sort" ->
         LET n == NumStates(F) IN
         {Total(e),
          Chk("size-err", Len(e.ord) # n, e.k = "err"),
          Chk("ok", Len(e.ord) = n, e.k = "ok"),
          Chk("perm", ok, SameStruct(sr, e.v, Permute(F, e.ord)))}
    [] e.op = "top_sort" ->
         {MustSucceed(e), WF(e), SameRelAs(e, F),
          Chk("size", ok, NumStates(e.v) = NumStates(F) /\ Cardinality(ArcSet(e.v)) = Cardinality(ArcSet(F))),
          Chk("sorted", ok /\ Acyclic(F), TopSorted(e.v)),
          Chk("cyclic-unchanged", ok /\ ~Acyclic(F), SameStruct(sr, e.v, F))}
    [] e.op = "tr_sum" ->
         {MustSucceed(e), WF(e),
          Chk("shape", ok, e.v.s = F.s /\ Len(e.v.f) = Len(F.f) /\ \A q \in 1 .. Len(F.f) : SeqWEq(sr, F.f[q], e.v.f[q])),
          Chk("sums", ok /\ Len(e.v.f) = Len(F.f), \A q \in 1 .. Len(F.a) :
                /\ {Key3(F.a[q][i]) : i \in 1 .. Len(F.a[q])} = {Key3(e.v.a[q][i]) : i \in 1 .. Len(e.v.a[q])}
                /\ Cardinality({Key3(F.a[q][i]) : i \in 1 .. Len(F.a[q])}) = Len(e.v.a[q])
                /\ \A i \in 1 .. Len(e.v.a[q]) : WEq(sr, e.v.a[q][i][3], SumKey(sr, F.a[q], Key3(e.v.a[q][i]))))}
    [] e.op = "tr_unique" ->
         {MustSucceed(e), WF(e),
          Chk("shape", ok, e.v.s = F.s /\ Len(e.v.f) = Len(F.f) /\ \A q \in 1 .. Len(F.f) : SeqWEq(sr, F.f[q], e.v.f[q])),
          Chk("set", ok /\ Len(e.v.f) = Len(F.f), \A q \in 1 .. Len(F.a) :
                /\ ToSet(F.a[q]) = ToSet(e.v.a[q])
                /\ Cardinality(ToSet(F.a[q])) = Len(e.v.a[q]))}
    [] e.op = "condense" ->
         {MustSucceed(e),
          Chk("scc", e.k = "val", \A p, q \in States(F) : (e.v.scc[p + 1] = e.v.scc[q + 1]) <=> SameScc(F, p, q)),
          Chk("topo", e.k = "val", \A qi \in ArcSet(F) : e.v.scc[qi[1] + 1] <= e.v.scc[NS(Arcs(F, qi[1])[qi[2]]) + 1]),
          Chk("struct", e.k = "val" /\ Len(e.v.scc) = NumStates(F), SameUpToArcOrder(sr, e.v.fst, CondenseRef(F, sr, e.v.scc)))}
    [] e.op = "rm_final_eps" ->
         {MustSucceed(e), WF(e), SameRelAs(e, F), Chk("trim", ok, Connected(e.v))}
    [] e.op = "superfinal" ->
         {MustSucceed(e), Chk("rel", e.k = "val", WellFormed(e.v.fst) /\ SameRel(e.v.fst, F, sr, LOf(e))),
          Chk("one", e.k = "val", Finals(e.v.fst) = {e.v.q} /\ WEq(sr, FinalW(e.v.fst, sr, e.v.q), One(sr)))}

=============================================================================
