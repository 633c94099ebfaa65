------------------------------- MODULE Coding -------------------------------
(***************************************************************************)
(* Encoding of transitions into labels, and factoring of composite weights.*)
(***************************************************************************)
EXTENDS Grammar

HasW(mode) == mode \in {"w", "wl"}
HasL(mode) == mode \in {"l", "wl"}
KeyOf(mode, sr, il, ol, w) == <<il, IF HasL(mode) THEN ol ELSE 0, IF HasW(mode) THEN w ELSE One(sr)>>
\* t is the encoding of the transition il:ol/w to ns
EncOf(mode, sr, table, t, il, ol, w, ns) ==
  /\ t[1] \in 1 .. Len(table) /\ table[t[1]] = KeyOf(mode, sr, il, ol, w)
  /\ t[2] = (IF HasL(mode) THEN t[1] ELSE ol)
  /\ t[3] = (IF HasW(mode) THEN One(sr) ELSE w)
  /\ t[4] = ns
EncodedOk(mode, sr, F, G, table) ==
  IF F.s = -1 THEN SameStruct(sr, G, F)
  ELSE LET n == NumStates(F) IN
    /\ G.s = F.s
    /\ NumStates(G) = n + (IF HasW(mode) THEN 1 ELSE 0)
    /\ \A q \in 1 .. n :
         LET k == Len(F.a[q])
             ext == HasW(mode) /\ F.f[q] # <<>>
         IN  /\ Len(G.a[q]) = k + (IF ext THEN 1 ELSE 0)
             /\ \A i \in 1 .. k : EncOf(mode, sr, table, G.a[q][i], F.a[q][i][1], F.a[q][i][2], F.a[q][i][3], F.a[q][i][4])
             /\ ext => EncOf(mode, sr, table, G.a[q][k + 1], 0, 0, F.f[q][1], n)
             /\ G.f[q] = (IF HasW(mode) THEN <<>> ELSE F.f[q])
    /\ HasW(mode) => (G.f[n + 1] = <<One(sr)>> /\ G.a[n + 1] = <<>>)

EncodeClauses(e, ins) ==
  LET F == ins[1] IN
  IF e.op = "encode"
  THEN {MustSucceed(e),
        Chk("injective", e.k = "val", \A i, j \in 1 .. Len(e.v.table) : i # j => e.v.table[i] # e.v.table[j]),
        Chk("encoded", e.k = "val", EncodedOk(e.mode, e.sr, F, e.v.fst, e.v.table))}
  ELSE {MustSucceed(e), WF(e), SameRelAs(e, F)}

----------------------------------------------------------------------------
(* Machines whose weights are sequences of alternatives <<string, weight>>. *)
(* GExpand spells such a machine out as an ordinary transducer: the string  *)
(* of every alternative becomes a chain of output labels.                   *)
GItems(G) ==   \* every alternative of every arc and final weight: <<from, ilabel, string, weight, to>>, to = -1 for final
  FlattenSeq([q \in 1 .. Len(G.a) |->
     FlattenSeq([i \in 1 .. Len(G.a[q]) |-> LET t == G.a[q][i] IN
        [k \in 1 .. Len(t[3]) |-> <<q - 1, t[1], t[3][k][1], t[3][k][2], t[4]>>]])
     \o [k \in 1 .. Len(G.f[q]) |-> <<q - 1, 0, G.f[q][k][1], G.f[q][k][2], -1>>]])
GExpand(G) ==
  IF G.s = -1 THEN EmptyFst
  ELSE
  LET n == Len(G.a)
      it == TLCEval(GItems(G))
      \* item j owns the K states n+1+(j-1)*K ..
      K == TLCEval(1 + Max({0} \cup {Len(it[j][3]) : j \in 1 .. Len(it)}))
      tot == n + 1 + Len(it) * K
      inner(j, m) == n + 1 + (j - 1) * K + (m - 1)
      dest(j) == IF it[j][5] = -1 THEN n ELSE it[j][5]
      seg(j, m) == \* m-th arc of item j (1 .. len+1)
        LET s == it[j][3]  len == Len(s) IN
        <<IF m = 1 THEN it[j][2] ELSE 0, IF m <= len THEN s[m] ELSE 0, IF m = 1 THEN it[j][4] ELSE 0,
          IF m = len + 1 THEN dest(j) ELSE inner(j, m)>>
      items(q) == SelectSeq([j \in 1 .. Len(it) |-> j], LAMBDA j : it[j][1] = q)
  IN  [s |-> G.s,
       f |-> TLCEval([q \in 1 .. tot |-> IF q = n + 1 THEN <<0>> ELSE <<>>]),
       a |-> TLCEval([q \in 1 .. tot |->
               IF q <= n THEN LET js == items(q - 1) IN [i \in 1 .. Len(js) |-> seg(js[i], 1)]
               ELSE IF q = n + 1 THEN <<>>
               ELSE LET j == (q - n - 2) \div K + 1  m == ((q - n - 2) % K) + 1 IN
                    IF m <= Len(it[j][3]) THEN <<seg(j, m + 1)>> ELSE <<>>])]

MaxStr(ws) == IF ws = <<>> THEN 0 ELSE Max({Len(ws[k][1]) : k \in 1 .. Len(ws)})
Factored(ws, union) == MaxStr(ws) <= 1 /\ (~union \/ Len(ws) <= 1)
\* final transitions: those whose labels come from the options, erased in the relation
FinTr(e, t) == (e.fin[1] > 0 /\ t[1] >= e.fin[1]) \/ (e.fin[2] > 0 /\ t[2] >= e.fin[2])
EraseFin(e, G) == [G EXCEPT !.a = [q \in 1 .. Len(G.a) |-> [i \in 1 .. Len(G.a[q]) |->
                     LET t == G.a[q][i] IN IF FinTr(e, t) THEN <<0, 0, t[3], t[4]>> ELSE t]]]
FinLabels(e, ts) ==   \* the final transitions of a state are numbered in order
  LET fs == SelectSeq(ts, LAMBDA t : FinTr(e, t))
  IN  \A k \in 1 .. Len(fs) : /\ fs[k][1] = e.fin[1] + e.fin[3] * (k - 1)
                              /\ fs[k][2] = e.fin[2] + e.fin[4] * (k - 1)
FactorClauses(e, ins) ==
  LET ok == e.k = "val"
      wf == ok /\ WellFormed(e.v.m)
      u == e.kind = "union"
      G == e.v.m
  IN
  {Total(e),
   Chk("refuses-none", e.mode = "", e.k = "err"),
   Chk("succeeds", e.mode # "", wf),
   Chk("rel", wf, SameRel(GExpand(EraseFin(e, G)), GExpand(e.src), "trop", LOf(e))),
   Chk("final-labels", wf /\ (e.fin[1] > 0 \/ e.fin[2] > 0), \A q \in 1 .. Len(G.a) : FinLabels(e, G.a[q])),
   Chk("acceptor", wf /\ e.v.acc, \A q \in 1 .. Len(G.a) : \A i \in 1 .. Len(G.a[q]) : G.a[q][i][1] = G.a[q][i][2]),
   Chk("arcs-factored", wf /\ e.mode \in {"a", "af"}, \A q \in 1 .. Len(G.a) : \A i \in 1 .. Len(G.a[q]) : Factored(G.a[q][i][3], u)),
   Chk("finals-factored", wf /\ e.mode \in {"f", "af"}, \A q \in 1 .. Len(G.f) : Factored(G.f[q], u))}
=============================================================================
