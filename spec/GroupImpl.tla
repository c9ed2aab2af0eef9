----------------------------- MODULE GroupImpl -----------------------------
(* src/events.c: waitfor, tasks_poster and __thrd_waitfor.  Each group has a *)
(* member for every pool thread and one that stays; its creator (a task of   *)
(* the main thread, or of a pool thread) waits for all of them.  A member on *)
(* a pool thread may send a task to its own thread and wait for that.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS G,         \* groups of main thread's tasks
          Nested,    \* groups of a pool thread's task
          W,         \* pool threads
          OneAtATime, MainOnly, CountLocked, TakeInLoop
VARIABLES pc, shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, dq, res, fin, bad
vars == <<pc, shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, dq, res, fin, bad>>
A == G \cup Nested
Member == A \X (W \cup {0})
Init == /\ pc = [g \in A |-> "open"] /\ shared = [g \in A |-> FALSE] /\ posted = 0 /\ tasks = [w \in W |-> 0] /\ jobs = [w \in W |-> << >>]
        /\ cnt = [g \in A |-> Cardinality(W)] /\ lk = [g \in A |-> 0] /\ live = [g \in A |-> TRUE] /\ wpc = [w \in W |-> "idle"] /\ cur = [w \in W |-> 0]
        /\ dq = [w \in W |-> << >>] /\ res = [g \in A |-> {}] /\ fin = [m \in Member |-> "no"] /\ bad = FALSE
P(g, q) == pc' = [pc EXCEPT ![g] = q]
Shares(g) == (OneAtATime => posted = 0) /\ (MainOnly => g \in G)
Post(g) == /\ pc[g] = "open" /\ P(g, "local")
           /\ IF Shares(g) THEN /\ shared' = [shared EXCEPT ![g] = TRUE] /\ posted' = g /\ tasks' = [w \in W |-> g] /\ jobs' = [w \in W |-> Append(jobs[w], <<g, w>>)] /\ UNCHANGED cnt
                           ELSE cnt' = [cnt EXCEPT ![g] = 0] /\ UNCHANGED <<shared, posted, tasks, jobs>>
           /\ UNCHANGED <<lk, live, wpc, cur, dq, res, fin, bad>>
Here(g) == {g} \X (IF shared[g] THEN {0} ELSE W \cup {0})
Local(g) == /\ pc[g] = "local" /\ \E m \in Here(g) : fin[m] = "no" /\ fin' = [fin EXCEPT ![m] = "yes"] /\ res' = [res EXCEPT ![g] = @ \cup {m}]
            /\ UNCHANGED <<pc, shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, dq, bad>>
LocalEnd(g) == pc[g] = "local" /\ (\A m \in Here(g) : fin[m] = "yes") /\ P(g, IF shared[g] THEN "lock" ELSE "free") /\ UNCHANGED <<shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, dq, res, fin, bad>>
GLock(g) == pc[g] = "lock" /\ (CountLocked => lk[g] = 0) /\ lk' = (IF CountLocked THEN [lk EXCEPT ![g] = -1] ELSE lk) /\ P(g, "look")
            /\ UNCHANGED <<shared, posted, tasks, jobs, cnt, live, wpc, cur, dq, res, fin, bad>>
GLook(g) == pc[g] = "look" /\ P(g, IF cnt[g] > 0 THEN "lock" ELSE "free") /\ lk' = (IF CountLocked THEN [lk EXCEPT ![g] = 0] ELSE lk)
            /\ UNCHANGED <<shared, posted, tasks, jobs, cnt, live, wpc, cur, dq, res, fin, bad>>
Free(g) == pc[g] = "free" /\ P(g, "end") /\ live' = [live EXCEPT ![g] = FALSE] /\ posted' = (IF shared[g] THEN 0 ELSE posted)
           /\ UNCHANGED <<shared, tasks, jobs, cnt, lk, wpc, cur, dq, res, fin, bad>>
\* pool thread
WStart(w) == /\ wpc[w] = "idle" /\ tasks[w] # 0 /\ wpc' = [wpc EXCEPT ![w] = "jobs"] /\ cur' = [cur EXCEPT ![w] = tasks[w]] /\ tasks' = [tasks EXCEPT ![w] = 0]
             /\ UNCHANGED <<pc, shared, posted, jobs, cnt, lk, live, dq, res, fin, bad>>
\* a member starts, sends a task to this thread, and waits for it
WRun(w) == /\ wpc[w] = "jobs" /\ \E i \in 1..Len(jobs[w]) : LET m == jobs[w][i] IN fin[m] = "no" /\ fin' = [fin EXCEPT ![m] = "waits"] /\ dq' = [dq EXCEPT ![w] = Append(@, m)]
           /\ UNCHANGED <<pc, shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, res, bad>>
WTake(w) == /\ (wpc[w] = "idle" \/ (TakeInLoop /\ wpc[w] = "jobs")) /\ dq[w] # << >> /\ fin' = [fin EXCEPT ![Head(dq[w])] = "yes"] /\ dq' = [dq EXCEPT ![w] = Tail(@)]
            /\ UNCHANGED <<pc, shared, posted, tasks, jobs, cnt, lk, live, wpc, cur, res, bad>>
WDone(w) == /\ wpc[w] = "jobs" /\ \E i \in 1..Len(jobs[w]) : LET m == jobs[w][i] IN
               /\ fin[m] = "yes" /\ jobs' = [jobs EXCEPT ![w] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] /\ res' = [res EXCEPT ![cur[w]] = @ \cup {m}]
               /\ bad' = (bad \/ ~live[cur[w]])
            /\ UNCHANGED <<pc, shared, posted, tasks, cnt, lk, live, wpc, cur, dq, fin>>
WLock(w) == /\ wpc[w] = "jobs" /\ jobs[w] = << >> /\ lk[cur[w]] = 0 /\ lk' = [lk EXCEPT ![cur[w]] = w] /\ bad' = (bad \/ ~live[cur[w]]) /\ wpc' = [wpc EXCEPT ![w] = "dec"]
            /\ UNCHANGED <<pc, shared, posted, tasks, jobs, cnt, live, cur, dq, res, fin>>
WDec(w) == /\ wpc[w] = "dec" /\ cnt' = [cnt EXCEPT ![cur[w]] = @ - 1] /\ bad' = (bad \/ ~live[cur[w]]) /\ wpc' = [wpc EXCEPT ![w] = "unlock"]
           /\ UNCHANGED <<pc, shared, posted, tasks, jobs, lk, live, cur, dq, res, fin>>
WUnlock(w) == /\ wpc[w] = "unlock" /\ lk' = [lk EXCEPT ![cur[w]] = 0] /\ bad' = (bad \/ ~live[cur[w]]) /\ wpc' = [wpc EXCEPT ![w] = "idle"]
              /\ UNCHANGED <<pc, shared, posted, tasks, jobs, cnt, live, cur, dq, res, fin>>
Worker(w) == WStart(w) \/ WRun(w) \/ WTake(w) \/ WDone(w) \/ WLock(w) \/ WDec(w) \/ WUnlock(w)
Waiter(g) == Post(g) \/ Local(g) \/ LocalEnd(g) \/ GLock(g) \/ GLook(g) \/ Free(g)
Next == (\E g \in A : Waiter(g)) \/ (\E w \in W : Worker(w))
Spec == Init /\ [][Next]_vars /\ (\A g \in A : WF_vars(Waiter(g)) /\ SF_vars(GLock(g))) /\ \A w \in W : WF_vars(Worker(w)) /\ SF_vars(WLock(w))
NoUse == ~bad
Own == \A g \in A : res[g] \subseteq ({g} \X (W \cup {0}))
Whole == \A g \in A : pc[g] \in {"free", "end"} => res[g] = {g} \X (W \cup {0}) /\ \A m \in res[g] : fin[m] = "yes"
Waited == <>(\A g \in A : pc[g] = "end")
=============================================================================
