------------------------------- MODULE Pool --------------------------------
(* Tasks sent to the thread pool by tasks of any thread: each runs once, on  *)
(* one thread, with the arguments given; its value is obtained under its     *)
(* identifier after it ended; waiting for a group ends after all members.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES task, grp, looks
pvars == <<task, grp, looks>>
Main == 0
\* task 0 and those with a negative sender are of the main thread
PInit == task = (0 :> [st |-> "run", by |-> -1, g |-> -1, how |-> "main", r |-> -1, th |-> Main, v |-> 0, can |-> 0]) /\ grp = << >> /\ looks = << >>
Known(k) == k \in DOMAIN task
Group(g, by) == g \notin DOMAIN grp /\ grp' = (g :> [by |-> by, st |-> "open"]) @@ grp /\ UNCHANGED <<task, looks>>
Send(k, by, g, how) == /\ ~Known(k) /\ (by \in DOMAIN task => task[by].st = "run")
                       /\ (g >= 0 => g \in DOMAIN grp /\ grp[g].st = "open" /\ grp[g].by = by)
                       /\ task' = (k :> [st |-> "sent", by |-> by, g |-> g, how |-> how, r |-> -1, th |-> -1, v |-> 0, can |-> 0]) @@ task /\ UNCHANGED <<grp, looks>>
Id(k, r) == Known(k) /\ r >= 0 /\ (\A j \in DOMAIN task : task[j].r # r) /\ task' = [task EXCEPT ![k].r = r] /\ UNCHANGED <<grp, looks>>
\* what is sent to the pool runs on a thread of the pool; the members of a group on any thread
Run(k, t) == /\ Known(k) /\ task[k].st = "sent" /\ (IF task[k].g >= 0 THEN TRUE ELSE t # Main)
             /\ task' = [task EXCEPT ![k].st = "run", ![k].th = t] /\ UNCHANGED <<grp, looks>>
Ret(k, t, v) == Known(k) /\ task[k].st = "run" /\ task[k].th = t /\ task' = [task EXCEPT ![k].st = "ended", ![k].v = v] /\ UNCHANGED <<grp, looks>>
Clean(k, t) == Known(k) /\ task[k].how = "guard" /\ task[k].st = "ended" /\ task[k].th = t /\ task' = [task EXCEPT ![k].st = "cleaned"] /\ UNCHANGED <<grp, looks>>
Got(k, v) == Known(k) /\ task[k].st = "ended" /\ task[k].v = v /\ UNCHANGED pvars
Members(g) == {k \in DOMAIN task : task[k].g = g}
Wait(g, n) == /\ g \in DOMAIN grp /\ grp[g].st = "open" /\ n = Cardinality(Members(g)) /\ grp' = [grp EXCEPT ![g].st = "wait"] /\ UNCHANGED <<task, looks>>
Waited(g, rs) == /\ g \in DOMAIN grp /\ grp[g].st = "wait" /\ (\A k \in Members(g) : task[k].st = "ended")
                 /\ {rs[i] : i \in 1..Len(rs)} = {task[k].r : k \in {m \in Members(g) : task[m].v # 0}}
                 /\ Len(rs) = Cardinality({m \in Members(g) : task[m].v # 0})
                 /\ grp' = [grp EXCEPT ![g].st = "done"] /\ UNCHANGED <<task, looks>>
\* a task is told it was cancelled (by anyone, with its identifier) from then on, and not otherwise
Cancel(k) == Known(k) /\ task' = [task EXCEPT ![k].can = IF @ = 0 THEN 1 ELSE @] /\ UNCHANGED <<grp, looks>>
Cancelled(k) == Known(k) /\ task[k].can > 0 /\ task' = [task EXCEPT ![k].can = 2] /\ UNCHANGED <<grp, looks>>
Peek(k) == Known(k) /\ looks' = (k :> task[k].can) @@ looks /\ UNCHANGED <<task, grp>>
Look(k, b) == k \in DOMAIN looks /\ (IF b THEN task[k].can > 0 ELSE looks[k] < 2) /\ looks' = [j \in DOMAIN looks \ {k} |-> looks[j]] /\ UNCHANGED <<task, grp>>
Over == /\ (\A k \in DOMAIN task \ {0} : task[k].st = (IF task[k].how = "guard" THEN "cleaned" ELSE "ended")) /\ (\A g \in DOMAIN grp : grp[g].st = "done") /\ UNCHANGED pvars
=============================================================================
