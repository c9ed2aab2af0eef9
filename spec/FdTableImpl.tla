---------------------------- MODULE FdTableImpl ----------------------------
(* src/os_unix.c:events_new_fd and the releasing paths: slots are scanned    *)
(* one at a time; `inuse` is the type field, `obj` the mapped object.        *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, S, Rounds,
          Locked,      \* scanning, taking and releasing under the table lock
          Stamp,       \* a released slot is cleared before it is marked unused
          Scan1        \* the scan starts at the second slot
VARIABLES inuse, obj, lock, pc, i, mine, want, n, refused
vars == <<inuse, obj, lock, pc, i, mine, want, n, refused>>
Slots == 1..S
Init == /\ inuse = [s \in Slots |-> FALSE] /\ obj = [s \in Slots |-> 0] /\ lock = 0
        /\ pc = [t \in Threads |-> "out"] /\ i = [t \in Threads |-> 0] /\ mine = [t \in Threads |-> {}]
        /\ want = [t \in Threads |-> 0] /\ n = [t \in Threads |-> 0] /\ refused = FALSE
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
Free(l) == ~Locked \/ l = 0
Hold(t) == lock' = IF Locked THEN t ELSE lock
Drop == lock' = 0
\* obj of thread t's k-th object: 10 * t + k
New(t) == /\ pc[t] = "out" /\ n[t] < Rounds /\ Free(lock) /\ Hold(t)
          /\ n' = [n EXCEPT ![t] = @ + 1] /\ \E w \in {0} \cup Slots : want' = [want EXCEPT ![t] = w]
          /\ i' = [i EXCEPT ![t] = IF Scan1 THEN 2 ELSE 1] /\ Set(t, "want") /\ UNCHANGED <<inuse, obj, mine, refused>>
Want(t) == /\ pc[t] = "want"
           /\ IF want[t] # 0 /\ ~inuse[want[t]] THEN i' = [i EXCEPT ![t] = want[t]] /\ Set(t, "take") ELSE Set(t, "scan") /\ UNCHANGED i
           /\ UNCHANGED <<inuse, obj, lock, mine, want, n, refused>>
Look(t) == /\ pc[t] = "scan"
           /\ IF i[t] > S THEN Set(t, "out") /\ refused' = (refused \/ (Locked /\ \E s \in Slots : ~inuse[s])) /\ Drop /\ UNCHANGED i
              ELSE /\ UNCHANGED <<lock, refused>>
                   /\ IF ~inuse[i[t]] THEN Set(t, "take") /\ UNCHANGED i ELSE i' = [i EXCEPT ![t] = @ + 1] /\ UNCHANGED pc
           /\ UNCHANGED <<inuse, obj, mine, want, n>>
Take(t) == /\ pc[t] = "take" /\ obj' = [obj EXCEPT ![i[t]] = 10 * t + n[t]] /\ Set(t, "mark")
           /\ UNCHANGED <<inuse, lock, i, mine, want, n, refused>>
Mark(t) == /\ pc[t] = "mark" /\ inuse' = [inuse EXCEPT ![i[t]] = TRUE] /\ mine' = [mine EXCEPT ![t] = @ \cup {<<i[t], 10 * t + n[t]>>}]
           /\ Drop /\ Set(t, "out") /\ UNCHANGED <<obj, i, want, n, refused>>
\* giving back
Del(t) == /\ pc[t] = "out" /\ Free(lock) /\ Hold(t)
          /\ \E m \in mine[t] : i' = [i EXCEPT ![t] = m[1]] /\ mine' = [mine EXCEPT ![t] = @ \ {m}]
          /\ Set(t, IF Stamp THEN "clr" ELSE "unm") /\ UNCHANGED <<inuse, obj, want, n, refused>>
Clr(t) == pc[t] = "clr" /\ obj' = [obj EXCEPT ![i[t]] = 0]
          /\ (IF Stamp THEN Set(t, "unm") /\ UNCHANGED lock ELSE Drop /\ Set(t, "out")) /\ UNCHANGED <<inuse, i, mine, want, n, refused>>
Unm(t) == pc[t] = "unm" /\ inuse' = [inuse EXCEPT ![i[t]] = FALSE]
          /\ (IF Stamp THEN Drop /\ Set(t, "out") ELSE Set(t, "clr") /\ UNCHANGED lock) /\ UNCHANGED <<obj, i, mine, want, n, refused>>
Next == \E t \in Threads : New(t) \/ Want(t) \/ Look(t) \/ Take(t) \/ Mark(t) \/ Del(t) \/ Clr(t) \/ Unm(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Unique == \A t, u \in Threads : \A a \in mine[t], b \in mine[u] : a[1] = b[1] => a = b /\ t = u
MapsBack == \A t \in Threads : \A a \in mine[t] : inuse[a[1]] /\ obj[a[1]] = a[2]
Answered == ~refused
=============================================================================
