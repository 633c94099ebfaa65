------------------------------- MODULE Queues -------------------------------
(***************************************************************************)
(* Work queues.  The abstract state of every queue is the sequence of      *)
(* states waiting in it, in the order they were enqueued; a discipline     *)
(* says which waiting states may come out next.                            *)
(*   kind  "fifo" "lifo" "state" "top" "sf" "trivial" "scc" "topfst" "auto"*)
(*   key   the order / weight / component of each state (position s + 1)   *)
(*   sub   for "scc": the discipline of each component; w: weights for it  *)
(* A session is a history of <<operation, argument, result>>.              *)
(***************************************************************************)
EXTENDS Iso

RemoveOne(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Waiting(s) == {s[i] : i \in 1 .. Len(s)}
\* disciplines that keep a state at most once
SetKinds == {"state", "top", "topfst"}
Insert(kind, s, x) ==
  CASE kind = "trivial" -> <<x>>
    [] kind \in SetKinds /\ x \in Waiting(s) -> s
    [] OTHER -> Append(s, x)
\* positions of s that may leave next
Minimal(s, key) == {i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : key[s[i] + 1] <= key[s[j] + 1]}
NextPos(kind, key, w, s) ==
  IF s = <<>> THEN {}
  ELSE CASE kind = "fifo" -> {1}
         [] kind = "lifo" -> {Len(s)}
         [] kind = "state" -> {i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : s[i] <= s[j]}
         [] kind = "top" -> Minimal(s, key)
         [] kind = "sf" -> Minimal(s, w)
         [] OTHER -> 1 .. Len(s)
\* the component discipline: the waiting states of the least component, in its own discipline
SccPos(e, s) ==
  LET m == Minimal(s, e.key)
      ps == SetToSortSeq(m, LAMBDA a, b : a < b)
      sub == [i \in 1 .. Len(ps) |-> s[ps[i]]]
  IN  IF s = <<>> THEN {} ELSE {ps[i] : i \in NextPos(e.sub[e.key[sub[1] + 1] + 1], e.key, e.w, sub)}
TopFstPos(e, F, s) == {i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : s[j] # s[i] => s[i] \notin ReachFrom(F, {s[j]}, {s[j]})}
PosOf(e, ins, s) ==
  CASE e.kind = "scc" -> SccPos(e, s)
    [] e.kind = "topfst" -> TopFstPos(e, ins[1], s)
    [] OTHER -> NextPos(e.kind, e.key, e.w, s)
InsertQ(e, s, x) ==
  IF e.kind = "scc"
  THEN IF e.sub[e.key[x + 1] + 1] \in {"state", "trivial"} /\ x \in Waiting(s) THEN s ELSE Append(s, x)
  ELSE Insert(e.kind, s, x)

\* one step of a session from <<waiting, last head or -2, failed clauses>>
QStep(e, ins, st, h) ==
  LET s == st[1] ps == PosOf(e, ins, s)
      outs == {s[i] : i \in ps}
      deliver == h[3] \in outs \/ (s = <<>> /\ h[3] = -1)
  IN CASE h[1] = "enq" -> <<InsertQ(e, s, h[2]), -2, st[3]>>
       [] h[1] = "upd" -> <<s, -2, st[3]>>
       [] h[1] = "clr" -> <<<<>>, -2, st[3]>>
       [] h[1] = "emp" -> <<s, st[2], st[3] \cup IF h[3] = (IF s = <<>> THEN 1 ELSE 0) THEN {} ELSE {"emptiness"}>>
       [] h[1] = "hd" -> <<s, h[3], st[3] \cup (IF deliver THEN {} ELSE {"head"}) \cup (IF st[2] = -2 \/ st[2] = h[3] THEN {} ELSE {"head-stable"})>>
       [] h[1] = "deq" ->
            <<IF s = <<>> \/ h[3] \notin Waiting(s) THEN s
              ELSE LET c == {i \in (IF h[3] \in outs THEN ps ELSE 1 .. Len(s)) : s[i] = h[3]} IN RemoveOne(s, CHOOSE i \in c : TRUE),
              -2,
              st[3] \cup (IF h[3] = -1 THEN (IF s = <<>> THEN {} ELSE {"delivered"})
                          ELSE IF h[3] \notin Waiting(s) THEN {"delivered"} ELSE IF h[3] \in outs THEN {} ELSE {"order"})
                    \cup (IF st[2] = -2 \/ st[2] = h[3] THEN {} ELSE {"head-is-next"})>>
QueueClauses(e, ins) ==
  LET fails == IF e.k = "val" THEN FoldLeft(LAMBDA st, h : QStep(e, ins, st, h), <<<<>>, -2, {}>>, e.v)[3] ELSE {}
  IN {MustSucceed(e)} \cup {Chk(c, e.k = "val", c \notin fails) : c \in {"delivered", "order", "head", "head-stable", "head-is-next", "emptiness"}}
=============================================================================
