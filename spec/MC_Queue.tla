------------------------------ MODULE MC_Queue ------------------------------
(***************************************************************************)
(* The window representation of the state-order, topological and component *)
(* queues (front, back, enqueued flags) refines the abstract queue that    *)
(* Queues.tla specifies: for every history of calls the head is the least  *)
(* waiting position, and the queue is empty exactly when nothing waits.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt
CONSTANT N
VARIABLES front, back, flag, waiting, given
vars == <<front, back, flag, waiting, given>>
Pos == 0 .. N
None == -1
IsEmpty == back = None \/ front > back
Head == IF IsEmpty THEN None ELSE front
Init == front = 0 /\ back = None /\ flag = {} /\ waiting = {} /\ given = None
Enqueue(s) ==
  /\ IF back = None \/ front > back THEN front' = s /\ back' = s
     ELSE IF s > back THEN back' = s /\ UNCHANGED front
     ELSE IF s < front THEN front' = s /\ UNCHANGED back
     ELSE UNCHANGED <<front, back>>
  /\ flag' = flag \cup {s} /\ waiting' = waiting \cup {s} /\ given' = None
RECURSIVE Skip(_, _)
Skip(f, fl) == IF f <= back /\ f \notin fl THEN Skip(f + 1, fl) ELSE f
Dequeue ==
  IF IsEmpty THEN given' = None /\ UNCHANGED <<front, back, flag, waiting>>
  ELSE /\ given' = front
       /\ flag' = flag \ {front}
       /\ front' = Skip(front, flag \ {front})
       /\ waiting' = waiting \ {Min(waiting)}
       /\ UNCHANGED back
Clear == /\ flag' = IF back = None THEN flag ELSE flag \ (front .. back)
         /\ front' = 0 /\ back' = None /\ waiting' = {} /\ given' = None
Next == (\E s \in Pos : Enqueue(s)) \/ Dequeue \/ Clear
Spec == Init /\ [][Next]_vars
HeadIsLeast == Head = (IF waiting = {} THEN None ELSE Min(waiting))
EmptyExact == IsEmpty = (waiting = {})
FlagsExact == flag = waiting
Delivers == [][given' # None => given' = Min(waiting)]_vars
=============================================================================
