------------------------------ MODULE LockImpl ------------------------------
(* include/catomics.h:atomic_lock, atomic_unlock: test and set, then spin on *)
(* plain loads; the unlocking store and the guarded stores go through the    *)
(* thread's store buffer (FIFO).                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Rounds,
          Split,     \* taking is a load followed by a store
          Plain,     \* the guarded stores may be overtaken by the unlock
          Toggle     \* a refused attempt flips the flag
VARIABLES flag, data, sb, pc, r, n
vars == <<flag, data, sb, pc, r, n>>
Init == /\ flag = 0 /\ data = 0 /\ sb = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> "out"]
        /\ r = [t \in Threads |-> 0] /\ n = [t \in Threads |-> 0]
Apply(e) == IF e[1] = "f" THEN flag' = e[2] /\ UNCHANGED data ELSE data' = e[2] /\ UNCHANGED flag
Drain(t) == /\ sb[t] # <<>>
            /\ \E i \in (IF Plain THEN 1..Len(sb[t]) ELSE {1}) :
                 /\ Apply(sb[t][i]) /\ sb' = [sb EXCEPT ![t] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
            /\ UNCHANGED <<pc, r, n>>
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
Go(t) == pc[t] = "out" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1] /\ Set(t, "tas") /\ UNCHANGED <<flag, data, sb, r>>
TAS(t) == /\ pc[t] = "tas" /\ UNCHANGED <<data, r, n>>
          /\ IF Split THEN (IF flag = 0 THEN Set(t, "set") ELSE Set(t, "spin")) /\ UNCHANGED <<flag, sb>>
             ELSE /\ sb[t] = <<>> /\ UNCHANGED sb
                  /\ IF flag = 0 THEN flag' = 1 /\ Set(t, "rd") ELSE flag' = (IF Toggle THEN 0 ELSE 1) /\ Set(t, "spin")
Store(t) == pc[t] = "set" /\ sb[t] = <<>> /\ flag' = 1 /\ Set(t, "rd") /\ UNCHANGED <<data, sb, r, n>>
Spin(t) == pc[t] = "spin" /\ (IF flag = 0 THEN Set(t, "tas") ELSE UNCHANGED pc) /\ UNCHANGED <<flag, data, sb, r, n>>
Rd(t) == pc[t] = "rd" /\ r' = [r EXCEPT ![t] = data] /\ Set(t, "wr") /\ UNCHANGED <<flag, data, sb, n>>
Wr(t) == pc[t] = "wr" /\ sb' = [sb EXCEPT ![t] = Append(@, <<"d", r[t] + 1>>)] /\ Set(t, "un") /\ UNCHANGED <<flag, data, r, n>>
Un(t) == pc[t] = "un" /\ sb' = [sb EXCEPT ![t] = Append(@, <<"f", 0>>)] /\ Set(t, "out") /\ UNCHANGED <<flag, data, r, n>>
Step(t) == Go(t) \/ TAS(t) \/ Store(t) \/ Spin(t) \/ Rd(t) \/ Wr(t) \/ Un(t)
Next == \E t \in Threads : Drain(t) \/ Step(t)
\* strong fairness: a thread that can take the lock again and again does in the end
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Drain(t)) /\ SF_vars(Step(t)) /\ SF_vars(TAS(t) /\ flag = 0)
In(t) == pc[t] \in {"rd", "wr", "un"}
Mutex == \A t, u \in Threads : In(t) /\ In(u) => t = u
Counted == (\A t \in Threads : pc[t] = "out" /\ sb[t] = <<>>) => data = LET S[k \in SUBSET Threads] == IF k = {} THEN 0 ELSE LET t == CHOOSE t \in k : TRUE IN n[t] + S[k \ {t}] IN S[Threads]
AllServed == <>(\A t \in Threads : n[t] = Rounds /\ pc[t] = "out")
=============================================================================
