------------------------------- MODULE Tasks -------------------------------
(* Cooperative tasks of one thread: the contract between the scheduler and   *)
(* its users.  Each action is one observable step of a task: being created,  *)
(* starting, giving up the processor (yield, sleep, await, wait for a group, *)
(* generator hand-over), coming back, finishing.                             *)
(*                                                                           *)
(* Fairness is part of the state: lo[t] / hi[t] bracket the moment (number   *)
(* of steps so far) at which t became ready to run.  For a task that yields  *)
(* or is created the bracket is exact; for a task whose wait is over it is   *)
(* an interval, because the scheduler may notice that only when it comes     *)
(* round: at the latest after every other task had a turn (second turn of    *)
(* some task).  A task may take its turn only if no other task has           *)
(* certainly been ready for longer.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Slack,        \* uncertainty of a deadline (clock reads inside the call)
          On            \* aspects demanded: "fair", "sleep", "await", "gen", "group"
VARIABLES n,            \* number of steps so far
          now,          \* current time
          cur,          \* task holding the processor, 0 if none
          task          \* id -> record

tvars == <<n, now, cur, task>>
Inf == 1000000000
Ids == DOMAIN task
None == 0

Init == n = 0 /\ now = 0 /\ cur = 0 /\ task = <<>>

Fresh(parent, soft, at) ==
    [st |-> "ready", lo |-> at, hi |-> IF soft THEN Inf ELSE at, seen |-> {}, due |-> 0, tgt |-> 0, res |-> 0, rid |-> -1,
     parent |-> parent, started |-> FALSE, soft |-> soft, members |-> {}, q |-> <<>>, canc |-> FALSE, own |-> 0, group |-> FALSE,
     fed |-> FALSE, dur |-> 0]

Done(t) == t \in Ids /\ task[t].st = "done"

(* the wait of t is over, for sure, at time tm, with task table tk *)
CondIn(tk, t, tm) ==
    CASE tk[t].st = "ready" -> TRUE
      [] tk[t].st = "sleep" -> tm >= tk[t].due + Slack
      [] tk[t].st = "await" -> tk[tk[t].tgt].st = "done"
      [] tk[t].st = "gwait" -> \A m \in tk[t].members : tk[m].st = "done"
      [] tk[t].st = "next"  -> tk[tk[t].tgt].q # <<>> \/ tk[tk[t].tgt].st = "done"
      [] tk[t].st = "give"  -> Len(tk[t].q) <= 1
      [] tk[t].st = "fd"    -> tk[t].fed       \* the awaited descriptor became ready (environment)
      [] OTHER -> FALSE
(* the wait of t may be over *)
MayGo(t, tm) == CASE task[t].st = "sleep" -> "sleep" \in On => tm >= task[t].due
                  [] task[t].st = "await" -> "await" \in On => CondIn(task, t, tm)
                  [] task[t].st = "gwait" -> "group" \in On => CondIn(task, t, tm)
                  [] task[t].st \in {"next", "give"} -> "gen" \in On => CondIn(task, t, tm)
                  [] OTHER -> CondIn(task, t, tm)

(* bookkeeping after a step at index n+1 and time tm; x took a turn (0: nobody did) *)
Settle(tk, x, tm) ==
    [u \in DOMAIN tk |->
        IF tk[u].st = "sleep" /\ tm < tk[u].due
          THEN [tk[u] EXCEPT !.lo = n + 1]
        ELSE IF x # 0 /\ u # x /\ tk[u].hi = Inf /\ tk[u].st \notin {"done", "run"} /\ CondIn(tk, u, tm)
          THEN IF x \in tk[u].seen THEN [tk[u] EXCEPT !.hi = n + 1] ELSE [tk[u] EXCEPT !.seen = @ \cup {x}]
        ELSE tk[u]]

Step(tm, x, tk, c) == /\ tm >= now
                      /\ n' = n + 1 /\ now' = tm /\ cur' = c
                      /\ task' = Settle(tk, x, tm)

(* --- turns ------------------------------------------------------------- *)
Longest(t) == "fair" \in On => \A u \in Ids \ {t} : \/ task[u].hi >= task[t].lo
                                   \/ task[u].st \in {"done", "run"}
(* t continues without having given up the processor: its wait was already over *)
Immediate(t) == task[t].own = n
Holds(x) == IF x THEN TRUE ELSE FALSE     \* keeps TLC from splitting a condition into alternative steps
Turn(t, tm) == Holds(/\ cur = 0 /\ t \in Ids
                     /\ MayGo(t, tm)
                     /\ \/ Longest(t)
                        \/ Immediate(t) /\ task[t].st \in {"await", "next"})
Took(t) == IF Immediate(t) /\ task[t].st \in {"await", "next"} THEN 0 ELSE t
Running(t) == [task EXCEPT ![t].st = "run", ![t].hi = Inf, ![t].seen = {}, ![t].started = TRUE]

\* id: what the task sees as its own identifier (-1: it has none that others could use)
Unique(id) == \A u \in Ids : task[u].rid # id
Start(t, id, tm) == /\ Turn(t, tm) /\ task[t].st = "ready" /\ ~task[t].started
                    /\ Holds("await" \in On => IF task[t].rid = -1 THEN id = -1 \/ Unique(id) ELSE id = task[t].rid)
                    /\ Step(tm, t, [Running(t) EXCEPT ![t].rid = IF @ = -1 THEN id ELSE @], t)
Resume(t, tm) == /\ Turn(t, tm) /\ task[t].st = "ready" /\ task[t].started
                 /\ Step(tm, t, Running(t), t)
Wake(t, tm)  == /\ Turn(t, tm) /\ task[t].st = "sleep"
                /\ \* sleepers whose deadlines have passed resume in deadline order
                   Holds("sleep" \in On => \A u \in Ids \ {t} : task[u].st = "sleep" => task[u].due + Slack >= task[t].due)
                /\ Step(tm, t, Running(t), t)
Got(t, v, tm) == /\ Turn(t, tm) /\ task[t].st = "await"
                 /\ Holds("await" \in On => v = task[task[t].tgt].res)
                 /\ Step(tm, Took(t), Running(t), t)
GroupDone(t, tm) == /\ Turn(t, tm) /\ task[t].st = "gwait"
                    /\ Step(tm, t, [Running(t) EXCEPT ![t].members = {}, ![t].group = FALSE], t)
Value(t, v, tm) == /\ Turn(t, tm) /\ task[t].st = "next"
                   /\ LET g == task[t].tgt IN
                        IF task[g].q # <<>>
                          THEN /\ Holds("gen" \in On => v = Head(task[g].q))
                               /\ Step(tm, Took(t), [Running(t) EXCEPT ![g].q = Tail(@)], t)
                          ELSE Holds("gen" \in On => v = None) /\ Step(tm, Took(t), Running(t), t)
Gave(t, tm) == /\ Turn(t, tm) /\ task[t].st = "give"
               /\ Step(tm, t, Running(t), t)

(* --- giving up the processor --------------------------------------------- *)
Leave(t, st) == [task EXCEPT ![t].st = st, ![t].lo = n + 1, ![t].seen = {}, ![t].own = n + 1,
                             ![t].hi = IF st = "ready" /\ ~task[t].soft THEN n + 1 ELSE Inf]
Yield(t, tm) == cur = t /\ Step(tm, 0, Leave(t, "ready"), 0)
Sleep(t, d, tm) == cur = t /\ Step(tm, 0, [Leave(t, "sleep") EXCEPT ![t].due = tm + d, ![t].dur = d], 0)
Await(t, c, tm) == cur = t /\ c \in Ids /\ Step(tm, 0, [Leave(t, "await") EXCEPT ![t].tgt = c], 0)
GroupWait(t, tm) == cur = t /\ task[t].group /\ Step(tm, 0, Leave(t, "gwait"), 0)
Next1(t, g, tm) == cur = t /\ g \in Ids /\ Step(tm, 0, [Leave(t, "next") EXCEPT ![t].tgt = g], 0)
Give(t, v, tm) == cur = t /\ Step(tm, 0, [Leave(t, "give") EXCEPT ![t].q = Append(@, v)], 0)
Finish(t, v, tm) == cur = t /\ Step(tm, 0, [Leave(t, "done") EXCEPT ![t].res = v], 0)

(* --- steps of the running task (or of the program before it runs tasks) ---- *)
Create(p, c, soft, tm) ==
    /\ cur = p /\ c \notin Ids /\ c # 0
    /\ LET tk == task @@ (c :> Fresh(p, soft, n + 1)) IN
         Step(tm, 0, IF p # 0 /\ task[p].group THEN [tk EXCEPT ![p].members = @ \cup {c}] ELSE tk, cur)
Made(c, id, tm) == /\ c \in Ids /\ task[c].rid = -1
                   /\ Holds("await" \in On => id >= 0 /\ Unique(id))
                   /\ Step(tm, 0, [task EXCEPT ![c].rid = id], cur)
Group(t, tm) == cur = t /\ ~task[t].group /\ Step(tm, 0, [task EXCEPT ![t].group = TRUE, ![t].members = {}], cur)
Cancel(t, c, tm) == cur = t /\ c \in Ids /\ Step(tm, 0, [task EXCEPT ![c].canc = TRUE], cur)
FdWait(t, tm) == cur = t /\ Step(tm, 0, Leave(t, "fd"), 0)
FdReady(t, tm) == /\ Turn(t, tm) /\ task[t].st = "fd"
                  /\ Step(tm, t, [Running(t) EXCEPT ![t].fed = FALSE], t)
Feed(t, c, tm) == cur = t /\ c \in Ids /\ Step(tm, 0, [task EXCEPT ![c].fed = TRUE], cur)
Look(t, tm) == cur = t /\ Step(tm, 0, task, cur)

AllDone == \A t \in Ids : task[t].st = "done"

(* --- what must hold ------------------------------------------------------- *)
TypeOK == /\ cur \in Ids \cup {0}
          /\ \A t \in Ids : task[t].st \in {"ready", "run", "sleep", "await", "gwait", "next", "give", "fd", "done"}
OneRunning == \A t \in Ids : (task[t].st = "run") <=> (cur = t)
SlotBound == \A t \in Ids : Len(task[t].q) <= 2
NeverStuckBehind ==  \* some ready task may always go
    cur = 0 /\ (\E t \in Ids : CondIn(task, t, now)) => \E t \in Ids : CondIn(task, t, now) /\ Longest(t)
=============================================================================
