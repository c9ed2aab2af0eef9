----------------------------- MODULE FutureImpl -----------------------------
(* src/future.c: thrd_async, _thrd_wrapper, promise_set, promise_erred,      *)
(* thrd_get, with the guard around the function (hooks that note the         *)
(* exception).  Threads 1..N, one function each, all started by one task,    *)
(* which uses a guard of its own in between.                                 *)
EXTENDS Integers
CONSTANTS N,
          OwnErr,      \* the exception is kept in the promise, not in the starter's scope
          WaitEnd,     \* the asker waits for the thread to end
          OwnHooks,    \* the hooks of a guard are the thread's own
          ValueFirst   \* the outcome is there before "done"
VARIABLES pc, out, res, err, done, hook, saved, joined, ans, mpc, want, mh
vars == <<pc, out, res, err, done, hook, saved, joined, ans, mpc, want, mh>>
Th == 1..N
E(t) == IF OwnErr THEN t ELSE 0                \* where the exception of t is kept
H(t) == IF OwnHooks THEN t ELSE 0              \* where the hooks of t are
Init == /\ pc = [t \in Th |-> "none"] /\ out \in [Th -> {10, 20, -1, -2}]        \* -k: throws k
        /\ res = [t \in Th |-> 0] /\ err = [t \in 0..N |-> 0] /\ done = [t \in Th |-> FALSE]
        /\ hook = [t \in 0..N |-> FALSE] /\ saved = [t \in 0..N |-> FALSE] /\ joined = [t \in Th |-> FALSE]
        /\ ans = [t \in Th |-> 0] /\ mpc = "out" /\ want = 0 /\ mh = 0
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
\* the thread
Clr(t) == pc[t] = "new" /\ err' = [err EXCEPT ![E(t)] = 0] /\ Set(t, "enter") /\ UNCHANGED <<out, res, done, hook, saved, joined, ans, mpc, want, mh>>
Enter(t) == pc[t] = "enter" /\ saved' = [saved EXCEPT ![t] = hook[H(t)]] /\ hook' = [hook EXCEPT ![H(t)] = TRUE]
            /\ Set(t, IF out[t] > 0 THEN (IF ValueFirst THEN "value" ELSE "done") ELSE "throw") /\ UNCHANGED <<out, res, err, done, joined, ans, mpc, want, mh>>
Value(t) == pc[t] = "value" /\ res' = [res EXCEPT ![t] = out[t]] /\ Set(t, IF ValueFirst THEN "done" ELSE "leave")
            /\ UNCHANGED <<out, err, done, hook, saved, joined, ans, mpc, want, mh>>
\* without the hook the exception counts as recovered: nothing is noted, and nothing is reported
Throw(t) == pc[t] = "throw" /\ Set(t, IF hook[H(t)] THEN "note" ELSE "lost") /\ UNCHANGED <<out, res, err, done, hook, saved, joined, ans, mpc, want, mh>>
Note(t) == pc[t] = "note" /\ err' = [err EXCEPT ![E(t)] = -out[t]] /\ Set(t, "done") /\ UNCHANGED <<out, res, done, hook, saved, joined, ans, mpc, want, mh>>
Lost(t) == pc[t] = "lost" /\ Set(t, "done") /\ UNCHANGED <<out, res, err, done, hook, saved, joined, ans, mpc, want, mh>>
Done(t) == pc[t] = "done" /\ done' = [done EXCEPT ![t] = TRUE] /\ Set(t, IF ValueFirst \/ out[t] < 0 THEN "leave" ELSE "value")
           /\ UNCHANGED <<out, res, err, hook, saved, joined, ans, mpc, want, mh>>
Leave(t) == pc[t] = "leave" /\ hook' = [hook EXCEPT ![H(t)] = saved[t]] /\ Set(t, "end") /\ UNCHANGED <<out, res, err, done, saved, joined, ans, mpc, want, mh>>
\* the task
Start == mpc = "out" /\ (\E t \in Th : pc[t] = "none" /\ Set(t, "new")) /\ UNCHANGED <<out, res, err, done, hook, saved, joined, ans, mpc, want, mh>>
GIn == mpc = "out" /\ mh = 0 /\ mh' = 1 /\ saved' = [saved EXCEPT ![0] = hook[0]] /\ hook' = [hook EXCEPT ![0] = TRUE]
       /\ UNCHANGED <<pc, out, res, err, done, joined, ans, mpc, want>>
GOut == mpc = "out" /\ mh = 1 /\ mh' = 2 /\ hook' = [hook EXCEPT ![0] = saved[0]] /\ UNCHANGED <<pc, out, res, err, done, saved, joined, ans, mpc, want>>
Ask == mpc = "out" /\ (\E t \in Th : pc[t] # "none" /\ ans[t] = 0 /\ want' = t) /\ mpc' = "wait" /\ UNCHANGED <<pc, out, res, err, done, hook, saved, joined, ans, mh>>
Wait == mpc = "wait" /\ done[want] /\ mpc' = "join" /\ UNCHANGED <<pc, out, res, err, done, hook, saved, joined, ans, want, mh>>
Join == mpc = "join" /\ (WaitEnd => pc[want] = "end") /\ joined' = [joined EXCEPT ![want] = pc[want] = "end"] /\ mpc' = "give"
        /\ UNCHANGED <<pc, out, res, err, done, hook, saved, ans, want, mh>>
Give == mpc = "give" /\ ans' = [ans EXCEPT ![want] = IF joined[want] /\ err[E(want)] # 0 THEN -err[E(want)] ELSE IF res[want] = 0 THEN 1 ELSE res[want]]
        /\ mpc' = "out" /\ UNCHANGED <<pc, out, res, err, done, hook, saved, joined, want, mh>>
Next == Start \/ GIn \/ GOut \/ Ask \/ Wait \/ Join \/ Give \/ \E t \in Th : Clr(t) \/ Enter(t) \/ Value(t) \/ Throw(t) \/ Note(t) \/ Lost(t) \/ Done(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Own == \A t \in Th : ans[t] # 0 => ans[t] = out[t]
DoneAfter == \A t \in Th : done[t] => (out[t] > 0 => res[t] = out[t]) /\ (out[t] < 0 /\ OwnErr /\ OwnHooks => err[t] = -out[t])
Joined == \A t \in Th : ans[t] # 0 => joined[t]
Answered == [](mpc # "out" => <>(mpc = "out"))
=============================================================================
