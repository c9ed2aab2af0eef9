----------------------------- MODULE QueueImpl -----------------------------
(* src/future.c, src/events.c: queue_work, queue_work_handler, queue_get and *)
(* __future_wrapper.  One task of the main thread queues jobs 1..N; the task *)
(* created for each hands its promise to the worker (append, count) and      *)
(* looks at it until it is done; the worker takes, runs, notes the outcome;  *)
(* whoever asked gives the memory of the promise back.  Tasks of the main    *)
(* thread switch only where they yield, the worker's steps come in between.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,
          Watch,     \* the asker waits until the other task does not look at the promise any more
          ArgsFirst, \* the worker takes the arguments from the promise before it is done
          Guard,     \* the worker's function runs in a guard
          CountLast, \* counted after it was appended
          Locked     \* the worker takes from the list under its lock
VARIABLES out, mem, done, watched, res, ex, hpc, apc, got, jobs, avail, lock, wpc, wj, ran, bad, dead
vars == <<out, mem, done, watched, res, ex, hpc, apc, got, jobs, avail, lock, wpc, wj, ran, bad, dead>>
J == 1..N
Init == /\ out \in [J -> {10, -1}] /\ mem = [j \in J |-> "none"] /\ done = [j \in J |-> FALSE] /\ watched = [j \in J |-> FALSE]
        /\ res = [j \in J |-> 0] /\ ex = [j \in J |-> 0] /\ hpc = [j \in J |-> "none"] /\ apc = [j \in J |-> "none"] /\ got = [j \in J |-> 0]
        /\ jobs = << >> /\ avail = 0 /\ lock = "" /\ wpc = "idle" /\ wj = 0 /\ ran = << >> /\ bad = FALSE /\ dead = FALSE
Touch(j) == bad' = (bad \/ mem[j] # "live")
\* ---- main thread
Busy == \E j \in J : hpc[j] \in {"app", "app2", "count", "unlock"}       \* a task that does not yield in between
Submit(j) == /\ ~Busy /\ apc[j] = "none" /\ (\A i \in 1..(j - 1) : apc[i] # "none") /\ mem' = [mem EXCEPT ![j] = "live"]
             /\ watched' = [watched EXCEPT ![j] = TRUE] /\ apc' = [apc EXCEPT ![j] = "ask"] /\ hpc' = [hpc EXCEPT ![j] = "start"]
             /\ UNCHANGED <<out, done, res, ex, got, jobs, avail, lock, wpc, wj, ran, bad, dead>>
\* the tasks run in the order in which they were made
HStart(j) == ~Busy /\ hpc[j] = "start" /\ (\A i \in 1..(j - 1) : hpc[i] # "start") /\ hpc' = [hpc EXCEPT ![j] = IF CountLast THEN "app" ELSE "count"]
             /\ UNCHANGED <<out, mem, done, watched, res, ex, apc, got, jobs, avail, lock, wpc, wj, ran, bad, dead>>
HLock(j) == hpc[j] = "app" /\ lock = "" /\ lock' = "m" /\ hpc' = [hpc EXCEPT ![j] = "app2"]
            /\ UNCHANGED <<out, mem, done, watched, res, ex, apc, got, jobs, avail, wpc, wj, ran, bad, dead>>
HApp(j) == hpc[j] = "app2" /\ jobs' = Append(jobs, j) /\ lock' = "" /\ hpc' = [hpc EXCEPT ![j] = IF CountLast THEN "count" ELSE "wait"]
           /\ UNCHANGED <<out, mem, done, watched, res, ex, apc, got, avail, wpc, wj, ran, bad, dead>>
HCount(j) == hpc[j] = "count" /\ avail' = avail + 1 /\ hpc' = [hpc EXCEPT ![j] = IF CountLast THEN "wait" ELSE "app"]
             /\ UNCHANGED <<out, mem, done, watched, res, ex, apc, got, jobs, lock, wpc, wj, ran, bad, dead>>
HWait(j) == /\ ~Busy /\ hpc[j] = "wait" /\ Touch(j) /\ (done[j] \/ mem[j] # "live")
            /\ watched' = [watched EXCEPT ![j] = FALSE] /\ hpc' = [hpc EXCEPT ![j] = "end"]
            /\ UNCHANGED <<out, mem, done, res, ex, apc, got, jobs, avail, lock, wpc, wj, ran, dead>>
Ask(j) == /\ ~Busy /\ apc[j] = "ask" /\ done[j] /\ (Watch => ~watched[j]) /\ Touch(j)
          /\ got' = [got EXCEPT ![j] = IF ex[j] # 0 THEN -ex[j] ELSE IF res[j] = 0 THEN 1 ELSE res[j]]
          /\ mem' = [mem EXCEPT ![j] = "freed"] /\ apc' = [apc EXCEPT ![j] = "end"]
          /\ UNCHANGED <<out, done, watched, res, ex, hpc, jobs, avail, lock, wpc, wj, ran, dead>>
\* ---- worker
W(p) == wpc' = p
WTake == wpc = "idle" /\ avail > 0 /\ avail' = avail - 1 /\ W("lock") /\ UNCHANGED <<out, mem, done, watched, res, ex, hpc, apc, got, jobs, lock, wj, ran, bad, dead>>
WLock == wpc = "lock" /\ (Locked => lock = "") /\ W("shift") /\ lock' = (IF Locked THEN "w" ELSE lock)
         /\ UNCHANGED <<out, mem, done, watched, res, ex, hpc, apc, got, jobs, avail, wj, ran, bad, dead>>
WShift == /\ wpc = "shift" /\ bad' = (bad \/ jobs = << >> \/ lock = "m") /\ lock' = (IF Locked THEN "" ELSE lock)
          /\ wj' = (IF jobs = << >> THEN 0 ELSE Head(jobs)) /\ jobs' = (IF jobs = << >> THEN jobs ELSE Tail(jobs)) /\ W(IF jobs = << >> THEN "idle" ELSE "run")
          /\ UNCHANGED <<out, mem, done, watched, res, ex, hpc, apc, got, avail, ran, dead>>
WRun == /\ wpc = "run" /\ Touch(wj) /\ ran' = Append(ran, wj) /\ dead' = (dead \/ (out[wj] < 0 /\ ~Guard))
        /\ W(IF out[wj] > 0 THEN "value" ELSE "note") /\ UNCHANGED <<out, mem, done, watched, res, ex, hpc, apc, got, jobs, avail, lock, wj>>
WValue == wpc = "value" /\ Touch(wj) /\ res' = [res EXCEPT ![wj] = out[wj]] /\ W("done") /\ UNCHANGED <<out, mem, done, watched, ex, hpc, apc, got, jobs, avail, lock, wj, ran, dead>>
WNote == wpc = "note" /\ Touch(wj) /\ ex' = [ex EXCEPT ![wj] = -out[wj]] /\ W("done") /\ UNCHANGED <<out, mem, done, watched, res, hpc, apc, got, jobs, avail, lock, wj, ran, dead>>
WDone == wpc = "done" /\ Touch(wj) /\ done' = [done EXCEPT ![wj] = TRUE] /\ W("args") /\ UNCHANGED <<out, mem, watched, res, ex, hpc, apc, got, jobs, avail, lock, wj, ran, dead>>
WArgs == wpc = "args" /\ (IF ArgsFirst THEN UNCHANGED bad ELSE Touch(wj)) /\ W("idle")
         /\ UNCHANGED <<out, mem, done, watched, res, ex, hpc, apc, got, jobs, avail, lock, wj, ran, dead>>
Next == WTake \/ WLock \/ WShift \/ WRun \/ WValue \/ WNote \/ WDone \/ WArgs
        \/ \E j \in J : Submit(j) \/ HStart(j) \/ HLock(j) \/ HApp(j) \/ HCount(j) \/ HWait(j) \/ Ask(j)
Worker == WTake \/ WLock \/ WShift \/ WRun \/ WValue \/ WNote \/ WDone \/ WArgs
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A j \in J : WF_vars(Submit(j)) /\ WF_vars(HStart(j)) /\ SF_vars(HLock(j)) /\ WF_vars(HApp(j)) /\ WF_vars(HCount(j)) /\ SF_vars(HWait(j)) /\ SF_vars(Ask(j))
NoUse == ~bad
Alive == ~dead
Own == \A j \in J : got[j] # 0 => got[j] = out[j]
Order == ran = [k \in 1..Len(ran) |-> k]
Answered == <>(\A j \in J : got[j] # 0)
=============================================================================
