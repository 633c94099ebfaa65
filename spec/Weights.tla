------------------------------- MODULE Weights -------------------------------
(***************************************************************************)
(* The weight types as algebras.  Values:                                  *)
(*   trop log prob int bool : a number (log and prob both as "real")       *)
(*   strL strR strX         : <<>> (infinity, the zero) or <<labels>>      *)
(*   prod (trop x log), galL galR galX galM (string x trop) : a pair       *)
(*   gal                    : sequence of <<string, trop>>, strings in     *)
(*                            order of length, then labels                 *)
(* An operation yields <<value>>, or <<>> where it is not defined.         *)
(***************************************************************************)
EXTENDS Symbols

Base(T) == IF T \in {"log", "prob"} THEN "real" ELSE T
NumT == {"trop", "log", "prob", "int", "bool"}
StrT == {"strL", "strR", "strX"}
PairT == {"galL", "galR", "galX", "galM"}
StrOf(T) == CASE T = "galL" -> "strL" [] T = "galR" -> "strR" [] OTHER -> "strX"

WZero(T) == CASE T \in NumT -> Zero(Base(T)) [] T \in StrT -> <<>> [] T = "prod" -> <<TINF, 0>>
              [] T \in PairT -> <<<<>>, TINF>> [] T = "gal" -> <<>>
WOne(T) == CASE T \in NumT -> One(Base(T)) [] T \in StrT -> << <<>> >> [] T = "prod" -> <<0, RS>>
             [] T \in PairT -> << << <<>> >>, 0>> [] T = "gal" -> << << << <<>> >>, 0>> >>

CommonPrefix(x, y) ==
  LET n == CHOOSE k \in 0 .. MinI(Len(x), Len(y)) :
             /\ SubSeq(x, 1, k) = SubSeq(y, 1, k)
             /\ (k = MinI(Len(x), Len(y)) \/ x[k + 1] # y[k + 1])
  IN  SubSeq(x, 1, n)
SAdd(T, a, b) ==
  IF a = <<>> THEN <<b>> ELSE IF b = <<>> THEN <<a>>
  ELSE CASE T = "strL" -> << <<CommonPrefix(a[1], b[1])>> >>
         [] T = "strR" -> << <<Reverse(CommonPrefix(Reverse(a[1]), Reverse(b[1])))>> >>
         [] T = "strX" -> IF a = b THEN <<a>> ELSE <<>>
SMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a[1] \o b[1]>>
SRev(a) == IF a = <<>> THEN a ELSE <<Reverse(a[1])>>
\* order of the strings of a set of pairs
SLess(a, b) ==
  LET x == a[1] y == b[1]
  IN  Len(x) < Len(y) \/ (Len(x) = Len(y) /\ \E i \in DOMAIN x : x[i] < y[i] /\ \A j \in 1 .. i - 1 : x[j] = y[j])
FromSet(S) ==
  LET strs == {p[1] : p \in S}
      best(s) == Min({p[2] : p \in {q \in S : q[1] = s}})
      ord == SetToSortSeq(strs, SLess)
  IN  [i \in DOMAIN ord |-> <<ord[i], best(ord[i])>>]

WAdd(T, a, b) ==
  CASE T \in NumT -> <<Add(Base(T), a, b)>>
    [] T \in StrT -> SAdd(T, a, b)
    [] T = "prod" -> << <<Add("trop", a[1], b[1]), Add("real", a[2], b[2])>> >>
    [] T \in {"galL", "galR", "galX"} ->
         LET s == SAdd(StrOf(T), a[1], b[1]) IN IF s = <<>> THEN <<>> ELSE << <<s[1], MinI(a[2], b[2])>> >>
    [] T = "galM" -> <<IF a[2] < b[2] THEN a ELSE b>>
    [] T = "gal" -> <<FromSet(ToSet(a) \cup ToSet(b))>>
WMul(T, a, b) ==
  CASE T \in NumT -> <<Mul(Base(T), a, b)>>
    [] T \in StrT -> <<SMul(a, b)>>
    [] T = "prod" -> << <<Mul("trop", a[1], b[1]), Mul("real", a[2], b[2])>> >>
    [] T \in PairT -> << <<SMul(a[1], b[1]), Mul("trop", a[2], b[2])>> >>
    [] T = "gal" -> <<FromSet({<<SMul(p[1], q[1]), p[2] + q[2]>> : p \in ToSet(a), q \in ToSet(b)})>>
WRev(T, a) ==
  CASE T \in NumT \cup {"prod"} -> a
    [] T \in StrT -> SRev(a)
    [] T \in PairT -> <<SRev(a[1]), a[2]>>
    [] T = "gal" -> FromSet({<<SRev(p[1]), p[2]>> : p \in ToSet(a)})
WSame(T, x, y) ==
  CASE T \in NumT -> WEq(Base(T), x, y)
    [] T = "prod" -> x[1] = y[1] /\ WEq("real", x[2], y[2])
    [] OTHER -> x = y
Same(T, x, y) == Len(x) = Len(y) /\ (x = <<>> \/ WSame(T, x[1], y[1]))
\* equal wherever both sides are defined
Agree(T, x, y) == x = <<>> \/ y = <<>> \/ WSame(T, x[1], y[1])

\* "min" pairs with one weight and two strings have no sum that is independent of the order
Tie(T, S) == T = "galM" /\ \E x, y \in S : x[2] = y[2] /\ x[1] # y[1]
Declared(e, bit) == (e.props \div bit) % 2 = 1
Divides(T, side) == CASE T \in {"strL", "galL"} -> side = "l" [] T \in {"strR", "galR"} -> side = "r"
                      [] T \in {"strX", "galX", "galM", "gal"} -> side \in {"l", "r"}
                      [] T \in {"int", "bool"} -> FALSE [] OTHER -> TRUE
\* rounding of a tropical number to a multiple of 1/16 (of 4 in the encoding)
Round4(x) == IF x = TINF THEN x ELSE ((x + 2) \div 4) * 4
LawClauses(e) ==
  LET T == e.sr
      a == e.wa b == e.wb c == e.wc r == e.v
      ok == e.k = "val"
      g == ok /\ ~Tie(T, {a, b, c})
      one == <<WOne(T)>>
      zero == <<WZero(T)>>
      single(x) == T # "gal" \/ Len(x) = 1
      nz(x) == CASE T \in {"log", "prob"} -> x > 0 [] T = "prod" -> x[1] # TINF /\ x[2] > 0 [] OTHER -> x # WZero(T)
  IN {Chk("total", TRUE, ok),
      \* what the algorithms ask a type for before they run on it
      Chk("declares", T \in {"int", "trop", "log", "prob", "bool"},
          /\ Declared(e, 1) /\ Declared(e, 2) /\ Declared(e, 4)
          /\ T \in {"trop", "bool"} => Declared(e, 8) /\ Declared(e, 16)),
      Chk("declares-strings", T \in StrT, Declared(e, 8) /\ (Declared(e, 1) \/ Declared(e, 2))),
      Chk("plus-is-the-sum", g, Same(T, r.ab, WAdd(T, a, b))),
      Chk("times-is-the-product", g, Same(T, r.tab, WMul(T, a, b))),
      Chk("zero-and-one", ok, Same(T, r.zero, zero) /\ Same(T, r.one, one)),
      Chk("plus-associative", g, Agree(T, r.p1, r.p2)),
      Chk("plus-commutative", g, Same(T, r.ab, r.ba)),
      Chk("plus-zero", ok, Same(T, r.za, <<a>>) /\ Same(T, r.az, <<a>>)),
      Chk("times-associative", ok, Same(T, r.t1, r.t2)),
      Chk("times-one", ok, Same(T, r.ua, <<a>>) /\ Same(T, r.au, <<a>>)),
      Chk("times-zero", ok, Same(T, r.tza, zero) /\ Same(T, r.taz, zero)),
      Chk("left-distributive", g /\ Declared(e, 1), Agree(T, r.dl1, r.dl2)),
      Chk("right-distributive", g /\ Declared(e, 2), Agree(T, r.dr1, r.dr2)),
      Chk("commutative", ok /\ Declared(e, 4), Same(T, r.tab, r.tba)),
      Chk("idempotent", ok /\ Declared(e, 8), Same(T, r.aa, <<a>>)),
      Chk("path", ok /\ Declared(e, 16), Same(T, r.ab, <<a>>) \/ Same(T, r.ab, <<b>>)),
      Chk("reverse", ok, Same(T, r.ra, <<WRev(T, a)>>) /\ Same(T, r.rback, <<a>>)),
      Chk("reverse-morphism", g, Same(T, r.rt1, r.rt2) /\ Agree(T, r.rp1, r.rp2)),
      \* the quotient multiplies back to what was divided
      Chk("divide-left", ok /\ Divides(T, "l") /\ nz(a) /\ single(a),
          r.divl # <<>> /\ Same(T, WMul(T, a, r.divl[1]), r.tab)),
      Chk("divide-right", ok /\ Divides(T, "r") /\ nz(b) /\ single(b),
          r.divr # <<>> /\ Same(T, WMul(T, r.divr[1], b), r.tab)),
      Chk("divide-any", ok /\ r.diva # <<>> /\ nz(b) /\ single(b), Same(T, WMul(T, r.diva[1], b), r.tab)),
      Chk("zero-divided", ok /\ T \notin {"int", "bool"} /\ nz(b), Same(T, r.zdiv, zero)),
      Chk("closure", ok /\ T \in NumT /\ r.star # <<>> /\ Star(Base(T), a) # UNDEF,
          WSame(T, r.star[1], Add(Base(T), One(Base(T)), Mul(Base(T), a, r.star[1])))),
      Chk("quantize", ok, Same(T, r.q, r.q2)
                          /\ (T = "trop" => r.q = <<Round4(a)>>)
                          /\ (T \in PairT => r.q = << <<a[1], Round4(a[2])>> >>)
                          /\ (T \in StrT => r.q = <<a>>)
                          /\ (T = "gal" => r.q = <<[i \in DOMAIN a |-> <<a[i][1], Round4(a[i][2])>>]>>)),
      Chk("value-access", ok, Same(T, r.set, <<b>>) /\ Same(T, r.new, <<a>>)),
      Chk("tests", ok, r.isz = (a = WZero(T)) /\ r.iso = (a = WOne(T)) /\ r.eqab = (a = b) /\ r.eqba = (a = b)
                       /\ r.apx = (a = b) /\ r.apxaa /\ r.eqaa /\ r.hash)}
NearClauses(e) == {Chk("equal-implies-same-hash", e.k = "val" /\ e.v.eq, e.v.hash)}
=============================================================================
