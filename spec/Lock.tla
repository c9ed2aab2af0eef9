-------------------------------- MODULE Lock --------------------------------
(* Contract of the spin locks.                                               *)
(*  holder  thread that holds each lock (None if nobody)                     *)
(*  pend    per thread: lock it is asking for, and whether that lock was     *)
(*          held by another thread at some moment since it asked             *)
(*  data    value guarded by each lock                                       *)
(*  late    thread whose release of the lock may not be visible yet to the   *)
(*          others (a delayed store; at the latest the thread's next atomic  *)
(*          read-modify-write makes it visible)                              *)
EXTENDS Integers, FiniteSets
VARIABLES holder, pend, data, late
lvars == <<holder, pend, data, late>>
None == -1
LInit(Locks, Threads) == /\ holder = [k \in Locks |-> None] /\ data = [k \in Locks |-> 0] /\ late = [k \in Locks |-> None]
                         /\ pend = [t \in Threads |-> [k |-> None, seen |-> FALSE]]
Saw(h) == [t \in DOMAIN pend |-> IF pend[t].k # None /\ h[pend[t].k] \notin {None, t} THEN [pend[t] EXCEPT !.seen = TRUE] ELSE pend[t]]
Ask(t, k) == /\ pend[t].k = None /\ holder[k] # t
             /\ pend' = [pend EXCEPT ![t] = [k |-> k, seen |-> holder[k] # None \/ late[k] \notin {None, t}]]
             /\ UNCHANGED <<holder, data, late>>
Shown(t) == late' = [k \in DOMAIN late |-> IF late[k] = t THEN None ELSE late[k]]
\* the lock was free: nobody else holds it
Get(t, k) == /\ pend[t].k = k /\ holder[k] = None
             /\ holder' = [holder EXCEPT ![k] = t]
             /\ pend' = [Saw(holder') EXCEPT ![t] = [k |-> None, seen |-> FALSE]]
             /\ UNCHANGED data
             /\ late' = [j \in DOMAIN late |-> IF j = k \/ late[j] = t THEN None ELSE late[j]]
\* a try-lock is refused only if somebody held the lock meanwhile
Refused(t, k) == /\ pend[t].k = k /\ pend[t].seen
                 /\ pend' = [pend EXCEPT ![t] = [k |-> None, seen |-> FALSE]]
                 /\ UNCHANGED <<holder, data>> /\ Shown(t)
Read(t, k, v) == holder[k] = t /\ data[k] = v /\ UNCHANGED lvars
Write(t, k, v) == holder[k] = t /\ data' = [data EXCEPT ![k] = v] /\ UNCHANGED <<holder, pend, late>>
Drop(t, k) == /\ holder[k] = t /\ holder' = [holder EXCEPT ![k] = None] /\ late' = [late EXCEPT ![k] = t] /\ UNCHANGED <<pend, data>>
AllFree == (\A k \in DOMAIN holder : holder[k] = None) /\ (\A t \in DOMAIN pend : pend[t].k = None) /\ UNCHANGED lvars
=============================================================================
