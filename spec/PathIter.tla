------------------------------ MODULE PathIter ------------------------------
(***************************************************************************)
(* Enumerating paths, testing a path, and converting between label or      *)
(* symbol sequences and machines.  sr "str": weights are label sequences   *)
(* (left string semiring), multiplied by concatenation, to see the order.  *)
(***************************************************************************)
EXTENDS RandGen

PMul(sr, a, b) == IF sr = "str" THEN a \o b ELSE Mul(sr, a, b)
POne(sr) == IF sr = "str" THEN <<>> ELSE One(sr)
AddL(ls, x) == IF x = 0 THEN ls ELSE Append(ls, x)
\* successful paths from q: sequence of <<input labels, output labels, weight>>
RECURSIVE IOFrom(_, _, _, _)
IOFrom(F, sr, q, p) ==
  LET here == IF IsFinal(F, q) THEN <<<<p[1], p[2], PMul(sr, p[3], F.f[q + 1][1])>>>> ELSE <<>> IN
  FoldLeft(LAMBDA acc, t : acc \o IOFrom(F, sr, NS(t), <<AddL(p[1], IL(t)), AddL(p[2], OL(t)), PMul(sr, p[3], WT(t))>>),
           here, Arcs(F, q))
IOPaths(F, sr) == IF F.s = -1 THEN <<>> ELSE IOFrom(F, sr, F.s, <<<<>>, <<>>, POne(sr)>>)
SameBag(u, v) ==
  /\ Len(u) = Len(v)
  /\ \A i \in 1 .. Len(u) : Cardinality({j \in 1 .. Len(u) : u[j] = u[i]}) = Cardinality({j \in 1 .. Len(v) : v[j] = u[i]})
DropEps(s) == SelectSeq(s, LAMBDA x : x # 0)

\* does some successful path carry exactly these labels and this weight: configurations <<state, i, j, weight>>
ConfStep(F, sr, x, y, c) ==
  {<<NS(t), c[2] + (IF IL(t) = 0 THEN 0 ELSE 1), c[3] + (IF OL(t) = 0 THEN 0 ELSE 1), Mul(sr, c[4], WT(t))>> :
     t \in {u \in Range(Arcs(F, c[1])) :
              /\ IL(u) = 0 \/ (c[2] < Len(x) /\ IL(u) = x[c[2] + 1])
              /\ OL(u) = 0 \/ (c[3] < Len(y) /\ OL(u) = y[c[3] + 1])}}
RECURSIVE ConfReach(_, _, _, _, _, _)
ConfReach(F, sr, x, y, seen, new) ==
  IF new = {} THEN seen
  ELSE LET nx == (UNION {ConfStep(F, sr, x, y, c) : c \in new}) \ seen IN ConfReach(F, sr, x, y, seen \cup nx, nx)
PathIn(F, sr, x, y, w) ==
  LET S == {<<F.s, 0, 0, One(sr)>>} IN
  \E c \in ConfReach(F, sr, x, y, S, S) : c[2] = Len(x) /\ c[3] = Len(y) /\ IsFinal(F, c[1]) /\ Mul(sr, c[4], FinalW(F, sr, c[1])) = w

\* symbols are given as a sequence of <<label, symbol>>
SymOf(tab, l) == LET h == {i \in 1 .. Len(tab) : tab[i][1] = l} IN IF h = {} THEN <<>> ELSE <<tab[CHOOSE i \in h : TRUE][2]>>
KnownSyms(tab, ls) == \A i \in 1 .. Len(ls) : SymOf(tab, ls[i]) # <<>>
Spell(tab, ls) == FoldLeft(LAMBDA acc, l : (IF acc = "" THEN "" ELSE acc \o " ") \o SymOf(tab, l)[1], "", ls)
SpeltOf(tab, ls) == IF KnownSyms(tab, ls) THEN <<Spell(tab, ls)>> ELSE <<>>

Linear(F, x, y, sr, w) == SameBag(IOPaths(F, sr), <<<<DropEps(x), DropEps(y), w>>>>)
PathOps == {"p.iter", "p.strings", "p.decode", "p.check", "p.acceptor", "p.transducer", "p.concat", "p.fromstr"}
PathClauses(e, ins) ==
  CASE e.op = "p.iter" -> {MustSucceed(e), Chk("paths", e.k = "val", SameBag(e.v, TLCEval(IOPaths(e.x, e.sr))))}
    [] e.op = "p.strings" ->
         LET ps == TLCEval(IOPaths(ins[1], e.sr)) has == e.hi /\ e.ho IN
         {Total(e), Chk("needs-tables", ~has, e.k = "err"), Chk("succeeds", has, e.k = "val"),
          \* the C interface only hands out the spelt strings
          Chk("spelling-c", has /\ e.k = "val" /\ e.via \in {"ffi", "py"},
              SameBag(e.v, [i \in 1 .. Len(ps) |-> <<ps[i][3], SpeltOf(e.it, ps[i][1]), SpeltOf(e.ot, ps[i][2])>>])),
          Chk("spelling", has /\ e.k = "val" /\ e.via \notin {"ffi", "py"},
              SameBag(e.v, [i \in 1 .. Len(ps) |-> <<ps[i][1], ps[i][2], ps[i][3], SpeltOf(e.it, ps[i][1]), SpeltOf(e.ot, ps[i][2])>>]))}
    [] e.op = "p.fromstr" ->
         LET Lab(tab, x) == {tab[i][1] : i \in {j \in 1 .. Len(tab) : tab[j][2] = x}}
             known == (\A i \in 1 .. Len(e.xs) : Lab(e.it, e.xs[i]) # {}) /\ (\A i \in 1 .. Len(e.ys) : Lab(e.ot, e.ys[i]) # {})
             Labs(tab, xs) == [i \in 1 .. Len(xs) |-> CHOOSE l \in Lab(tab, xs[i]) : TRUE]
         IN {Total(e), Chk("unknown-symbol", ~known, e.k = "err"), Chk("succeeds", known, e.k = "ok"),
             Chk("spells", known /\ e.k = "ok", WellFormed(e.v) /\ Linear(e.v, Labs(e.it, e.xs), Labs(e.ot, e.ys), e.sr, e.w))}
    [] e.op = "p.decode" ->
         LET ps == TLCEval(IOPaths(e.x, e.sr)) IN
         {Total(e),
          Chk("only-path", Len(ps) = 1, e.k = "val" /\ e.v = ps[1]),
          Chk("several-paths", Len(ps) > 1, e.k = "err"),
          Chk("no-path", ps = <<>>, e.k = "val" /\ e.v = <<<<>>, <<>>, POne(e.sr)>>)}
    [] e.op = "p.check" -> {MustSucceed(e), Chk("member", e.k = "val" /\ ins[1].s # -1, e.v = PathIn(ins[1], e.sr, e.pi, e.po, e.w))}
    [] e.op = "p.acceptor" -> {MustSucceed(e), WF(e), Chk("linear", e.k = "ok", Linear(e.v, e.li, e.li, e.sr, e.w))}
    [] e.op = "p.transducer" -> {MustSucceed(e), WF(e), Chk("linear", e.k = "ok", Linear(e.v, e.li, e.lo, e.sr, e.w))}
    [] e.op = "p.concat" -> {MustSucceed(e), Chk("concat", e.k = "val", e.v = <<e.p[1] \o e.q[1], e.p[2] \o e.q[2], PMul(e.sr, e.p[3], e.q[3])>>)}
=============================================================================
