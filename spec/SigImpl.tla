------------------------------ MODULE SigImpl ------------------------------
(* The signal table of src/os_unix.c (events_add_signal, events_del_signal, events_sig_handler) and the loops' counts of *)
(* registered signals, next to the contract of Loop.tla.  Operations are made outside callbacks and inside them.         *)
EXTENDS Loop
CONSTANTS NS, NLoop, Slots, Budget, Variant
(* Variant: "code"; "firstfree" registers in the first free slot even when the signal has one further on;                *)
(* "open" does not hold other signals back while one is handled; "keep" leaves the handler installed after removal;      *)
(* "allrun" removal inside a callback does not count down                                                                *)
VARIABLES tab,      \* slot -> [sig, cb, arg, l]; cb = 0: free
          inst,     \* signals whose handler is installed
          hmask,    \* the library's handler has been entered (signals wait)
          kpend,    \* signals the kernel holds back
          cnt,      \* loop -> active_signals
          dead, left
svars == <<tab, inst, hmask, kpend, cnt, dead, left>>
S == 1..NS
Free == [sig |-> 0, cb |-> 0, arg |-> 0, l |-> 0]
SInit == /\ LInit({}, {}, S) /\ tab = [i \in 1..Slots |-> Free] /\ inst = {} /\ hmask = 0 /\ kpend = {} /\ cnt = [x \in 1..NLoop |-> 0]
         /\ dead = FALSE /\ left = Budget
SlotOf(s) == {i \in 1..Slots : tab[i].cb # 0 /\ tab[i].sig = s}
FreeSlots == {i \in 1..Slots : tab[i].cb = 0}
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Op == left > 0 /\ ~dead /\ left' = left - 1 /\ (spend = {} \/ sin # 0)

Register(s, x, cb) ==
    /\ Op /\ s \notin kpend
    /\ LET arg == left
           slot == IF Variant = "firstfree" THEN Least(FreeSlots \cup SlotOf(s))
                   ELSE IF SlotOf(s) # {} THEN Least(SlotOf(s)) ELSE Least(FreeSlots)
       IN IF SlotOf(s) \cup FreeSlots = {}
          THEN /\ SigAdd(s, x, cb, arg, -1, 0) /\ UNCHANGED <<tab, inst, cnt>>
          ELSE /\ SigAdd(s, x, cb, arg, 0, 0)
               /\ tab' = [tab EXCEPT ![slot] = [sig |-> s, cb |-> cb, arg |-> arg, l |-> x]]
               /\ inst' = inst \cup {s}
               /\ cnt' = LET c == IF SlotOf(s) # {} /\ tab[Least(SlotOf(s))].l = x THEN [cnt EXCEPT ![x] = @ - 1] ELSE cnt
                         IN [c EXCEPT ![x] = @ + 1]
    /\ (sg[s].l = 0 \/ sg[s].l = x)                \* a signal belongs to one loop at a time
    /\ UNCHANGED <<hmask, kpend, dead>>
Remove(s) ==
    /\ Op /\ sg[s].l # 0 /\ s \notin kpend
    /\ SigDel(s, IF SlotOf(s) # {} THEN 0 ELSE -1, 0)
    /\ IF SlotOf(s) = {} THEN UNCHANGED <<tab, inst, cnt>>
       ELSE /\ tab' = [tab EXCEPT ![Least(SlotOf(s))] = Free]
            /\ inst' = IF Variant = "keep" THEN inst ELSE inst \ {s}
            /\ cnt' = IF Variant = "allrun" /\ hmask # 0 THEN cnt ELSE [cnt EXCEPT ![tab[Least(SlotOf(s))].l] = @ - 1]
    /\ UNCHANGED <<hmask, kpend, dead>>
(* the signal arrives: it is handled at once, held back, or ends the process *)
Arrive(s) ==
    /\ Op /\ sg[s].l # 0 /\ s \notin kpend
    /\ Raise(s, 0)
    /\ IF hmask # 0 /\ Variant # "open" THEN kpend' = kpend \cup {s} /\ UNCHANGED <<hmask, dead>>
       ELSE IF s \notin inst \/ hmask # 0 THEN dead' = TRUE /\ UNCHANGED <<hmask, kpend>>
       ELSE hmask' = s /\ UNCHANGED <<kpend, dead>>
    /\ UNCHANGED <<tab, inst, cnt>>
(* the handler finds the slot and runs the callback *)
Call == /\ ~dead /\ hmask # 0 /\ sin = 0 /\ hmask \in spend
        /\ Assert(SlotOf(hmask) # {}, "no callback")
        /\ LET e == tab[Least(SlotOf(hmask))] IN
           /\ Assert(e.cb = sg[hmask].cb /\ e.arg = sg[hmask].arg, "wrong callback")
           /\ SigCb(hmask, e.cb, e.arg, 0)
        /\ UNCHANGED svars
Return == /\ ~dead /\ sin # 0 /\ SigRet(sin, 0)
          /\ IF kpend = {} THEN hmask' = 0 /\ UNCHANGED kpend
             ELSE \E s \in kpend : hmask' = s /\ kpend' = kpend \ {s}
          /\ UNCHANGED <<tab, inst, cnt, dead, left>>
SNext == \/ \E s \in S, x \in 1..NLoop, cb \in 1..2 : Register(s, x, cb)
         \/ \E s \in S : Remove(s) \/ Arrive(s)
         \/ Call \/ Return
SSpec == SInit /\ [][SNext]_<<lvars, svars>>
Alive == ~dead
Agree == /\ \A x \in 1..NLoop : cnt[x] = NSignals(x)
         /\ \A s \in S : (sg[s].l # 0) <=> Cardinality(SlotOf(s)) = 1
         /\ \A s \in S : (s \in inst) <=> (sg[s].l # 0)
=============================================================================
