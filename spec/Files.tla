-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Files.  A machine is written as a sequence of bytes (OpenFst binary     *)
(* layout, vector and const) or as a text of rows; reading what was written *)
(* gives the machine back.  The text format has no place for states that   *)
(* nothing mentions, for a machine without start, or for symbol tables.    *)
(* Weights are opaque here: 0 is the zero and 1 the one of their semiring. *)
(***************************************************************************)
EXTENDS Lazy

\* what the binary formats keep: a zero final weight is "not final"
NoZeroFinals(F) == [i \in DOMAIN F.f |-> IF F.f[i] = <<0>> THEN <<>> ELSE F.f[i]]
BinNorm(F) == [s |-> F.s, f |-> NoZeroFinals(F), a |-> F.a]
Mentioned(F) ==
  {F.s} \cup {q \in States(F) : NoZeroFinals(F)[q + 1] # <<>> \/ Len(Arcs(F, q)) > 0}
        \cup {NS(Arcs(F, x[1])[x[2]]) : x \in ArcSet(F)}
TextNorm(F) ==
  IF F.s = -1 THEN EmptyFst
  ELSE LET n == Max(Mentioned(F)) + 1
       IN  [s |-> F.s, f |-> SubSeq(NoZeroFinals(F), 1, n), a |-> SubSeq(F.a, 1, n)]
Counters(F) == [i \in DOMAIN F.f |-> <<Len(F.a[i]), NEps(F, i - 1, 1), NEps(F, i - 1, 2)>>]
BinFormats == {"vec", "vecfile", "const", "constfile", "cross", "twice", "constvec", "aligned", "alignedvec"}
SymFormats == BinFormats \ {"cross"}
RoundTripClauses(e) ==
  LET ok == e.k = "ok"
  IN {Chk("total", TRUE, ok),
      Chk("same-table", ok, Core(e.v) = IF e.fmt \in BinFormats THEN BinNorm(e.x) ELSE TextNorm(e.x)),
      Chk("counters", ok, e.v.c = Counters(e.v)),
      Chk("symbols", ok /\ e.fmt \in SymFormats, e.v.isy = e.x.isy /\ e.v.osy = e.x.osy)}
SymtClauses(e) == {Chk("total", TRUE, e.k = "ok"), Chk("same-symbols", e.k = "ok", e.v = e.x)}
\* another type of file, no file, or no room for the file: reported as an error
RejectClauses(e) == {Chk("refused", TRUE, e.k = "err")}

----------------------------------------------------------------------------
\* Byte layout.
Byte(n, i) == (n \div (256 ^ i)) % 256
LE32(n) == IF n = -1 THEN <<255, 255, 255, 255>> ELSE [i \in 1 .. 4 |-> IF i = 4 THEN n \div 16777216 ELSE Byte(n, i - 1)]
LE64(n) == LE32(n) \o (IF n = -1 THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, 0>>)
Str(b) == LE32(Len(b)) \o b
CodesOf(n) == CASE n = "vec" -> <<118, 101, 99, 116, 111, 114>>
                [] n = "const" -> <<99, 111, 110, 115, 116>>
                [] n = "standard" -> <<115, 116, 97, 110, 100, 97, 114, 100>>
                [] n = "log" -> <<108, 111, 103>>
                [] n = "name" -> <<114, 117, 115, 116, 102, 115, 116, 95, 115, 121, 109, 98, 111, 108, 116, 97, 98, 108, 101>>
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
SymtBytes(sy) ==
  LE32(2125658996) \o Str(CodesOf("name")) \o LE64(Len(sy)) \o LE64(Len(sy))
  \o Flat([i \in DOMAIN sy |-> Str(sy[i]) \o LE64(i - 1)])
ArcBytes(t, wb) == LE32(IL(t)) \o LE32(OL(t)) \o wb[WT(t) + 1] \o LE32(NS(t))
ArcsBefore(F, i) == FoldLeft(LAMBDA acc, x : acc + Len(x), 0, SubSeq(F.a, 1, i - 1))
Head1(e) == LE32(2125659606) \o Str(CodesOf(e.fmt)) \o Str(CodesOf(e.via)) \o LE32(2)
            \o LE32(Len(e.isyb) + 2 * Len(e.osyb))
Head2(e) == LE64(e.x.s) \o LE64(NumStates(e.x)) \o LE64(NumArcs(e.x))
            \o (IF e.isyb = <<>> THEN <<>> ELSE SymtBytes(e.isyb[1]))
            \o (IF e.osyb = <<>> THEN <<>> ELSE SymtBytes(e.osyb[1]))
Body(e, wb) ==
  LET F == e.x
      fin(i) == IF F.f[i] = <<>> THEN wb[1] ELSE wb[F.f[i][1] + 1]
      arcs(i) == Flat([j \in DOMAIN F.a[i] |-> ArcBytes(F.a[i][j], wb)])
  IN  IF e.fmt = "vec"
      THEN Flat([i \in DOMAIN F.f |-> fin(i) \o LE64(Len(F.a[i])) \o arcs(i)])
      ELSE Flat([i \in DOMAIN F.f |-> fin(i) \o LE32(ArcsBefore(F, i)) \o LE32(Len(F.a[i]))
                                     \o LE32(NEps(F, i - 1, 1)) \o LE32(NEps(F, i - 1, 2))])
           \o Flat([i \in DOMAIN F.f |-> arcs(i)])
LayoutClauses(e) ==
  LET ok == e.k = "val"
      b == e.v.b
  IN IF e.fmt = "symt"
     THEN {Chk("total", TRUE, ok), Chk("layout", ok, b = SymtBytes(e.isyb[1]))}
     ELSE LET h1 == Head1(e)
              rest == Head2(e) \o Body(e, e.v.wb)
          IN {Chk("total", TRUE, ok),
              \* eight bytes of property bits follow the first part of the header
              Chk("layout", ok, Len(b) = Len(h1) + 8 + Len(rest)
                                /\ SubSeq(b, 1, Len(h1)) = h1 /\ SubSeq(b, Len(h1) + 9, Len(b)) = rest)}

----------------------------------------------------------------------------
\* Damaged binary files: an error, or a machine all of whose references are good.
\* Nothing that was cut short, and nothing of another kind (magic number, machine type) is accepted.
MustRefuse(e) ==
  \/ e.how = "trunc"
  \/ e.how \in {"flip", "int"} /\ (e.off < 4 \/ (e.fmt \in {"vec", "const"} /\ e.off < 8 + Len(CodesOf(e.fmt))))
LoadClauses(e) ==
  {Chk("error-or-value", TRUE, e.k \in {"ok", "err"}),
   Chk("refused", MustRefuse(e), e.k = "err"),
   Chk("references", e.k = "ok",
       IF e.fmt = "symt" THEN e.v.back = [i \in 1 .. e.v.n |-> i - 1] /\ e.v.it = [i \in 1 .. e.v.n |-> i - 1]
       ELSE WellFormed(e.v) /\ e.v.c = Counters(e.v))}

\* Text files, character by character: rows of fields separated by tabs.
Split(b, c) ==
  LET cuts == SetToSortSeq({i \in DOMAIN b : b[i] = c}, <)
      n == Len(cuts)
      lo(i) == IF i = 1 THEN 1 ELSE cuts[i - 1] + 1
      hi(i) == IF i = n + 1 THEN Len(b) ELSE cuts[i] - 1
  IN  [i \in 1 .. n + 1 |-> SubSeq(b, lo(i), hi(i))]
\* a final line feed ends the last row
Lines(b) == LET ls == Split(b, 10) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Digits(f) == \A i \in DOMAIN f : f[i] \in 48 .. 57
IsNum(f) == f # <<>> /\ Digits(f) /\ Len(f) <= 9
NumOf(f) == FoldLeft(LAMBDA acc, d : acc * 10 + d - 48, 0, f)
Infinity == <<73, 110, 102, 105, 110, 105, 116, 121>>
NumberChars == {43, 45, 46, 69, 101} \cup 48 .. 57
\* verdicts: "yes", "no", or "open" (a number of a shape that this specification leaves open)
NumV(f) == IF IsNum(f) THEN "yes" ELSE IF f # <<>> /\ Digits(f) THEN "open" ELSE "no"
WeightV(f) == IF IsNum(f) THEN "yes" ELSE IF f = <<>> \/ ~(\A i \in DOMAIN f : f[i] \in NumberChars) THEN "no" ELSE "open"
All3(vs) == IF "no" \in vs THEN "no" ELSE IF "open" \in vs THEN "open" ELSE "yes"
RowV(fs) ==
  CASE Len(fs) = 1 -> NumV(fs[1])
    [] Len(fs) = 2 -> All3({NumV(fs[1]), IF fs[2] = Infinity THEN "yes" ELSE WeightV(fs[2])})
    [] Len(fs) = 4 -> All3({NumV(fs[i]) : i \in 1 .. 4})
    [] Len(fs) = 5 -> All3({NumV(fs[i]) : i \in 1 .. 4} \cup {WeightV(fs[5])})
    [] OTHER -> "no"
\* blank lines and carriage returns are left open
LineV(ln) == IF ln = <<>> \/ 13 \in ToSet(ln) THEN "open" ELSE RowV(Split(ln, 9))
\* blanks at the very end of the text are left open
TrailingBlank(b) == LET x == {i \in DOMAIN b : b[i] # 10} IN x # {} /\ b[Max(x)] \in {9, 32}
\* a row that is wrong is wrong even next to rows that are left open
TextV(ls) == All3({LineV(ls[i]) : i \in DOMAIN ls})
RowStates(fs) == IF Len(fs) <= 2 THEN {NumOf(fs[1])} ELSE {NumOf(fs[1]), NumOf(fs[2])}
TextTable(rows) ==
  IF rows = <<>> THEN EmptyFst
  ELSE LET n == Max(UNION {RowStates(rows[i]) : i \in DOMAIN rows}) + 1
           arcs(q) == LET as == SelectSeq(rows, LAMBDA x : Len(x) >= 4 /\ NumOf(x[1]) = q)
                      IN  [i \in DOMAIN as |-> <<NumOf(as[i][3]), NumOf(as[i][4]),
                                                 IF Len(as[i]) = 5 THEN NumOf(as[i][5]) ELSE 1, NumOf(as[i][2])>>]
           fin(q) == LET x == SelectSeq(rows, LAMBDA y : Len(y) <= 2 /\ NumOf(y[1]) = q /\ (Len(y) = 1 \/ y[2] # Infinity))
                     IN  IF x = <<>> THEN <<>>
                         ELSE LET y == x[Len(x)] IN <<IF Len(y) = 1 THEN 1 ELSE NumOf(y[2])>>
       IN  [s |-> NumOf(rows[1][1]), f |-> [i \in 1 .. n |-> fin(i - 1)], a |-> [i \in 1 .. n |-> arcs(i - 1)]]
TextClauses(e) ==
  LET ls == Lines(e.t)
      v == IF TrailingBlank(e.t) THEN "open" ELSE TextV(ls)
      rows == [i \in DOMAIN ls |-> Split(ls[i], 9)]
  IN {Chk("error-or-value", TRUE, e.k \in {"ok", "err"}),
      Chk("not-a-machine", v = "no", e.k = "err"),
      Chk("a-machine", v = "yes", e.k = "ok" /\ BinNorm(e.v) = BinNorm(TextTable(rows))),
      Chk("references", e.k = "ok", WellFormed(e.v))}

\* Symbol table texts: symbol, blanks, label; labels in order and without holes.
SymRow(ln) ==
  LET bl == {i \in DOMAIN ln : ln[i] \in {9, 32}}
      i == IF bl = {} THEN Len(ln) + 1 ELSE Min(bl)
      after == {j \in i .. Len(ln) : ln[j] \notin {9, 32}}
      j == IF after = {} THEN Len(ln) + 1 ELSE Min(after)
  IN  <<SubSeq(ln, 1, i - 1), SubSeq(ln, j, Len(ln))>>
SymV(ln) == IF ln = <<>> \/ 13 \in ToSet(ln) \/ SymRow(ln)[1] = <<>> THEN "open" ELSE NumV(SymRow(ln)[2])
RECURSIVE SymFold(_, _, _)
SymFold(rows, i, acc) ==
  IF i > Len(rows) THEN <<TRUE, acc>>
  ELSE LET sym == rows[i][1]
           lab == NumOf(rows[i][2])
           old == {j \in DOMAIN acc : acc[j] = sym}
       IN  IF old # {} THEN IF {lab + 1} = old THEN SymFold(rows, i + 1, acc) ELSE <<FALSE, acc>>
           ELSE IF lab = Len(acc) THEN SymFold(rows, i + 1, Append(acc, sym)) ELSE <<FALSE, acc>>
SymTextClauses(e) ==
  LET ls == Lines(e.t)
      v == IF TrailingBlank(e.t) THEN "open" ELSE All3({SymV(ls[i]) : i \in DOMAIN ls})
      fold == SymFold([i \in DOMAIN ls |-> SymRow(ls[i])], 1, <<>>)
      good == v = "yes" /\ e.u /\ fold[1]
  IN {Chk("error-or-value", TRUE, e.k \in {"ok", "err"}),
      Chk("not-a-table", v = "no" \/ ~e.u \/ (v = "yes" /\ ~fold[1]), e.k = "err"),
      Chk("a-table", good, e.k = "ok" /\ e.v = fold[2])}
FileOps == {"io.roundtrip", "io.reject", "io.symt", "io.layout", "io.load", "io.text", "io.symtext"}
=============================================================================
