----------------------------- MODULE PoolImpl ------------------------------
(* src/events.c: go, task_push, tasks_create_result, enqueue_tasks,          *)
(* task_take, tasks_result_set and await_for.  Senders (tasks of different   *)
(* threads) send Per tasks each to the queue of one pool thread: a result is *)
(* entered in the growing table, the task is pushed, the thread takes it,    *)
(* runs it, enters its result and gives its memory back; then the senders    *)
(* look the results up.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senders, Per,
          TableLocked, \* a result is entered under the lock
          Keep,        \* the outgrown tables are kept
          PushLocked,  \* one sender at a time pushes
          StoreBack,   \* whoever sets a result stores the table's address again
          Touch        \* the sender looks at the task after it was pushed
T == Senders \X (1..Per)
None == <<"", 0>>
VARIABLES pc, n, tab, arr, gen, lock, loc, lid, mem, buf, bot, lb, top, avail, wpc, wt, wl, obj, ran, got, bad
vars == <<pc, n, tab, arr, gen, lock, loc, lid, mem, buf, bot, lb, top, avail, wpc, wt, wl, obj, ran, got, bad>>
tbl == <<tab, arr, gen, loc, lid, obj>>
que == <<mem, buf, bot, lb, top, avail>>
wrk == <<wpc, wt, wl, ran>>
Init == /\ pc = [s \in Senders |-> "lock1"] /\ n = [s \in Senders |-> 1] /\ tab = 0 /\ arr = << >> /\ gen = 0 /\ lock = "" /\ loc = [s \in Senders |-> 0]
        /\ lid = [t \in T |-> -1] /\ mem = [t \in T |-> "none"] /\ buf = << >> /\ bot = 1 /\ lb = [s \in Senders |-> 0] /\ top = 1 /\ avail = 0
        /\ wpc = "idle" /\ wt = None /\ wl = 0 /\ obj = [t \in T |-> "none"] /\ ran = [t \in T |-> 0] /\ got = [t \in T |-> FALSE] /\ bad = FALSE
Me(s) == <<s, n[s]>>
P(s, q) == pc' = [pc EXCEPT ![s] = q]
At(s, q) == pc[s] = q
Lock1(s) == At(s, "lock1") /\ (TableLocked => lock = "") /\ lock' = (IF TableLocked THEN s ELSE lock) /\ P(s, "id") /\ UNCHANGED <<n, tbl, que, wrk, got, bad>>
GenId(s) == /\ At(s, "id") /\ lid' = [lid EXCEPT ![Me(s)] = gen] /\ obj' = [obj EXCEPT ![Me(s)] = "new"] /\ gen' = gen + 1 /\ P(s, "load")
            /\ UNCHANGED <<n, tab, arr, loc, lock, que, wrk, got, bad>>
Load(s) == At(s, "load") /\ loc' = [loc EXCEPT ![s] = tab] /\ P(s, IF tab = 0 THEN "grow" ELSE IF lid[Me(s)] >= Len(arr[tab].cell) THEN "grow" ELSE "cell")
           /\ UNCHANGED <<n, tab, arr, gen, lid, obj, lock, que, wrk, got, bad>>
Grow(s) == LET a == loc[s] size == IF a = 0 THEN 1 ELSE 2 * Len(arr[a].cell)
               cells == [i \in 1..(IF size > lid[Me(s)] THEN size ELSE lid[Me(s)] + 1) |-> IF a # 0 /\ i <= Len(arr[a].cell) THEN arr[a].cell[i] ELSE None] IN
           /\ At(s, "grow") /\ bad' = (bad \/ (a # 0 /\ ~arr[a].live))
           /\ arr' = Append(IF a = 0 \/ Keep THEN arr ELSE [arr EXCEPT ![a].live = FALSE], [live |-> TRUE, cell |-> cells])
           /\ loc' = [loc EXCEPT ![s] = Len(arr) + 1] /\ P(s, "cell") /\ UNCHANGED <<n, tab, gen, lid, obj, lock, que, wrk, got>>
Cell(s) == LET a == loc[s] IN /\ At(s, "cell") /\ bad' = (bad \/ ~arr[a].live)
           /\ arr' = [arr EXCEPT ![a].cell[lid[Me(s)] + 1] = Me(s)] /\ P(s, "store") /\ UNCHANGED <<n, tab, gen, loc, lid, obj, lock, que, wrk, got>>
Store(s) == At(s, "store") /\ tab' = loc[s] /\ lock' = (IF TableLocked THEN "" ELSE lock) /\ P(s, "lock2") /\ UNCHANGED <<n, arr, gen, loc, lid, obj, que, wrk, got, bad>>
Lock2(s) == At(s, "lock2") /\ (PushLocked => lock = "") /\ lock' = (IF PushLocked THEN s ELSE lock) /\ mem' = [mem EXCEPT ![Me(s)] = "live"] /\ P(s, "bot")
            /\ UNCHANGED <<n, tbl, buf, bot, lb, top, avail, wrk, got, bad>>
Bot(s) == At(s, "bot") /\ lb' = [lb EXCEPT ![s] = bot] /\ P(s, "put") /\ UNCHANGED <<n, tbl, mem, buf, bot, top, avail, lock, wrk, got, bad>>
Put(s) == At(s, "put") /\ buf' = [i \in 1..(IF lb[s] > Len(buf) THEN lb[s] ELSE Len(buf)) |-> IF i = lb[s] THEN Me(s) ELSE buf[i]] /\ P(s, "bot2")
          /\ UNCHANGED <<n, tbl, mem, bot, lb, top, avail, lock, wrk, got, bad>>
Bot2(s) == At(s, "bot2") /\ bot' = lb[s] + 1 /\ P(s, "avail") /\ UNCHANGED <<n, tbl, mem, buf, lb, top, avail, lock, wrk, got, bad>>
Avail(s) == At(s, "avail") /\ avail' = avail + 1 /\ lock' = (IF PushLocked THEN "" ELSE lock) /\ P(s, "after") /\ UNCHANGED <<n, tbl, mem, buf, bot, lb, top, wrk, got, bad>>
After(s) == /\ At(s, "after") /\ bad' = (bad \/ (Touch /\ mem[Me(s)] # "live"))
            /\ (IF n[s] < Per THEN n' = [n EXCEPT ![s] = @ + 1] /\ P(s, "lock1") ELSE P(s, "ask") /\ UNCHANGED n) /\ UNCHANGED <<tbl, que, lock, wrk, got>>
Ask(s) == /\ At(s, "ask") /\ \E k \in 1..Per : LET t == <<s, k>> a == tab IN
             /\ ~got[t] /\ (IF Len(arr[a].cell) > lid[t] /\ arr[a].cell[lid[t] + 1] = t /\ arr[a].live
                            THEN obj[t] = "ready" /\ got' = [got EXCEPT ![t] = TRUE] /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED got)
          /\ UNCHANGED <<pc, n, tbl, que, lock, wrk>>
\* the pool's thread
W(p) == wpc' = p
WTake == /\ wpc = "idle" /\ avail > 0 /\ top < bot /\ wt' = buf[top] /\ top' = top + 1 /\ avail' = avail - 1 /\ W("run")
         /\ UNCHANGED <<pc, n, tbl, mem, buf, bot, lb, lock, wl, ran, got, bad>>
WRun == wpc = "run" /\ ran' = [ran EXCEPT ![wt] = @ + 1] /\ bad' = (bad \/ mem[wt] # "live") /\ W("load") /\ UNCHANGED <<pc, n, tbl, que, lock, wt, wl, got>>
WLoad == wpc = "load" /\ wl' = tab /\ W("set") /\ UNCHANGED <<pc, n, tbl, que, lock, wt, ran, got, bad>>
WSet == LET c == IF Len(arr[wl].cell) > lid[wt] THEN arr[wl].cell[lid[wt] + 1] ELSE None IN
        /\ wpc = "set" /\ bad' = (bad \/ ~arr[wl].live \/ c # wt) /\ obj' = [obj EXCEPT ![wt] = "ready"] /\ W(IF StoreBack THEN "back" ELSE "free")
        /\ UNCHANGED <<pc, n, tab, arr, gen, loc, lid, que, lock, wt, wl, ran, got>>
WBack == wpc = "back" /\ tab' = wl /\ W("free") /\ UNCHANGED <<pc, n, arr, gen, loc, lid, obj, que, lock, wt, wl, ran, got, bad>>
WFree == wpc = "free" /\ mem' = [mem EXCEPT ![wt] = "freed"] /\ W("idle") /\ UNCHANGED <<pc, n, tbl, buf, bot, lb, top, avail, lock, wt, wl, ran, got, bad>>
Worker == WTake \/ WRun \/ WLoad \/ WSet \/ WBack \/ WFree
Sender(s) == Lock1(s) \/ GenId(s) \/ Load(s) \/ Grow(s) \/ Cell(s) \/ Store(s) \/ Lock2(s) \/ Bot(s) \/ Put(s) \/ Bot2(s) \/ Avail(s) \/ After(s) \/ Ask(s)
Next == Worker \/ \E s \in Senders : Sender(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A s \in Senders : WF_vars(Sender(s)) /\ SF_vars(Lock1(s)) /\ SF_vars(Lock2(s))
NoUse == ~bad
Once == \A t \in T : ran[t] <= 1
Kept == (\A s \in Senders : pc[s] = "ask") => avail = bot - top /\ bot = 1 + Cardinality(T)
Ids == \A t, u \in T : t # u /\ lid[t] >= 0 => lid[t] # lid[u]
Answered == <>(\A t \in T : got[t] /\ ran[t] = 1)
=============================================================================
