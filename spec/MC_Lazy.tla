------------------------------- MODULE MC_Lazy -------------------------------
(***************************************************************************)
(* Lazy expansion under concurrency.  An operation discovers tuples; the   *)
(* state table gives each a number on first sight (one critical section    *)
(* per look-up); the cache keeps the transitions of each number.  Several  *)
(* threads ask for states in any order; nothing makes a whole expansion    *)
(* atomic, and two threads may expand the same state at the same time.     *)
(* Whatever the schedule, all observers see one machine: the machine whose *)
(* states are the tuples.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Asks
\* the operation: tuple -> sequence of <<label, successor tuple>>
Tuples == {"a", "b", "c", "d"}
Op == [a |-> <<<<1, "b">>, <<2, "c">>>>, b |-> <<<<1, "c">>, <<2, "a">>>>,
       c |-> <<<<1, "d">>, <<1, "b">>>>, d |-> <<<<2, "d">>>>]
VARIABLES table,   \* sequence of tuples: number i-1 is table[i]
          cache,   \* number -> <<>> or <<transitions>>
          known,   \* the cache's count of known states
          pc, todo, part, target, seen, asks
vars == <<table, cache, known, pc, todo, part, target, seen, asks>>
Nums == 0 .. 3
Init == /\ table = <<"a">>
        /\ cache = [n \in Nums |-> <<>>] /\ known = 1
        /\ pc = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> <<>>]
        /\ part = [t \in Threads |-> <<>>] /\ target = [t \in Threads |-> 0]
        /\ seen = {} /\ asks = [t \in Threads |-> 0]
MaxI(a, b) == IF a > b THEN a ELSE b
\* a thread asks for a state it has been told of (or the start)
Heard(t) == {0} \cup UNION {{x[2] : x \in {r[3][i] : i \in 1 .. Len(r[3])}} : r \in {q \in seen : q[1] = t}}
Ask(t, n) == /\ pc[t] = "idle" /\ asks[t] < Asks /\ n \in Heard(t)
             /\ target' = [target EXCEPT ![t] = n] /\ asks' = [asks EXCEPT ![t] = @ + 1]
             /\ IF cache[n] # <<>>
                THEN seen' = seen \cup {<<t, n, cache[n][1]>>} /\ UNCHANGED <<pc, todo, part>>
                ELSE /\ pc' = [pc EXCEPT ![t] = "expand"] /\ UNCHANGED seen
                     /\ todo' = [todo EXCEPT ![t] = Op[table[n + 1]]]
                     /\ part' = [part EXCEPT ![t] = <<>>]
             /\ UNCHANGED <<table, cache, known>>
\* one look-up in the state table
Look(t) == /\ pc[t] = "expand" /\ todo[t] # <<>>
           /\ LET lt == Head(todo[t])
                  old == {i \in 1 .. Len(table) : table[i] = lt[2]}
                  tb == IF old = {} THEN Append(table, lt[2]) ELSE table
                  n == IF old = {} THEN Len(table) ELSE (CHOOSE i \in old : TRUE) - 1
              IN  table' = tb /\ part' = [part EXCEPT ![t] = Append(@, <<lt[1], n>>)]
           /\ todo' = [todo EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<cache, known, pc, target, seen, asks>>
\* the transitions go into the cache (possibly over equal ones of another thread) and to the caller
Store(t) == /\ pc[t] = "expand" /\ todo[t] = <<>>
            /\ cache' = [cache EXCEPT ![target[t]] = <<part[t]>>]
            /\ known' = LET ns == {known} \cup {part[t][i][2] + 1 : i \in 1 .. Len(part[t])}
                        IN  CHOOSE m \in ns : \A k \in ns : k <= m
            /\ seen' = seen \cup {<<t, target[t], part[t]>>}
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<table, todo, part, target, asks>>
Next == \E t \in Threads : (\E n \in Nums : Ask(t, n)) \/ Look(t) \/ Store(t)
Spec == Init /\ [][Next]_vars
OneNumberPerTuple == \A i, j \in 1 .. Len(table) : table[i] = table[j] => i = j
Told(r) == \A i \in 1 .. Len(r[3]) : <<r[3][i][1], table[r[3][i][2] + 1]>> = Op[table[r[2] + 1]][i]
OneMachine == /\ \A r \in seen : Len(r[3]) = Len(Op[table[r[2] + 1]]) /\ Told(r)
              /\ \A r, q \in seen : r[2] = q[2] => r[3] = q[3]
KnownCoversCache == \A n \in Nums : cache[n] # <<>> => \A i \in 1 .. Len(cache[n][1]) : cache[n][1][i][2] < known
NeverForgets == [][\A n \in Nums : cache[n] # <<>> => cache'[n] = cache[n]]_vars
=============================================================================
