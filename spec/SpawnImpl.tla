------------------------------ MODULE SpawnImpl ------------------------------
(* Spawned children: for each a task that starts it, reads what it has       *)
(* written (without waiting) at each of its turns, asks whether it has       *)
(* ended, hands over what is left then, and reports its end.  What it knows  *)
(* of the child (whose it is, its pipe) is kept in a table of slots that are *)
(* used again.  Handlers may let other tasks run.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kids, Total, Cap, Chunk, Slots, Bad
VARIABLES kid,     \* child -> "no", "run", "zombie", "gone"
          w,       \* child -> bytes written
          pipe,    \* child -> what is in its pipe: <<child, number>>
          pc,      \* its task: "none", "start", "loop", "drain", "exit", "done", "failed"
          slot,    \* child -> its slot, 0: none
          info,    \* slot -> [own, use]: the child it tells of, is it taken
          got,     \* child -> what its output handler was given
          rep      \* child -> exit reports: what they said
vars == <<kid, w, pipe, pc, slot, info, got, rep>>
Code(c) == c + 40
Init == /\ kid = [c \in Kids |-> "no"] /\ w = [c \in Kids |-> 0] /\ pipe = [c \in Kids |-> << >>] /\ pc = [c \in Kids |-> "none"]
        /\ slot = [c \in Kids |-> 0] /\ info = [s \in 1 .. Slots |-> [own |-> 0, use |-> FALSE]]
        /\ got = [c \in Kids |-> << >>] /\ rep = [c \in Kids |-> << >>]
Free == {s \in 1 .. Slots : ~info[s].use}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Release(s) == info' = [info EXCEPT ![s].use = FALSE]
Of(c) == info[slot[c]].own                     \* the child the task of c finds in its slot
Spawn(c) == /\ pc[c] = "none" /\ Free # {} /\ slot' = [slot EXCEPT ![c] = Min(Free)]
            /\ info' = [info EXCEPT ![Min(Free)] = [own |-> c, use |-> TRUE]] /\ pc' = [pc EXCEPT ![c] = "start"]
            /\ UNCHANGED <<kid, w, pipe, got, rep>>
Start(c) == /\ pc[c] = "start"
            /\ \/ kid' = [kid EXCEPT ![c] = "run"] /\ pc' = [pc EXCEPT ![c] = "loop"] /\ UNCHANGED <<w, pipe, slot, info, got, rep>>
               \/ \* no process to be had
                  IF Bad = "Failed" THEN pc' = [pc EXCEPT ![c] = "exit"] /\ UNCHANGED <<kid, w, pipe, slot, info, got, rep>>
                  ELSE pc' = [pc EXCEPT ![c] = "failed"] /\ Release(slot[c]) /\ UNCHANGED <<kid, w, pipe, slot, got, rep>>
Least(a, b) == IF a < b THEN a ELSE b
Read(c, q) ==   \* the task of c reads some of the pipe of q and gives it to q's handler
    LET n == Least(Chunk, Len(pipe[q])) IN
    /\ got' = [got EXCEPT ![q] = @ \o SubSeq(pipe[q], 1, n)] /\ pipe' = [pipe EXCEPT ![q] = SubSeq(@, n + 1, Len(@))]
Loop(c) == /\ pc[c] = "loop"
           /\ IF kid[c] = "zombie"
              THEN /\ kid' = [kid EXCEPT ![c] = "gone"]
                   /\ pc' = [pc EXCEPT ![c] = IF Bad = "NoDrain" THEN "exit" ELSE "drain"]
                   /\ IF Bad = "Slot" THEN Release(slot[c]) ELSE UNCHANGED info
                   /\ UNCHANGED <<pipe, got>>
              ELSE /\ Bad # "NoRead" /\ pipe[Of(c)] # << >> /\ Read(c, Of(c)) /\ UNCHANGED <<kid, pc, info>>
           /\ UNCHANGED <<w, slot, rep>>
Drain(c) == /\ pc[c] = "drain"
            /\ IF pipe[Of(c)] = << >> THEN pc' = [pc EXCEPT ![c] = "exit"] /\ UNCHANGED <<pipe, got>>
               ELSE Read(c, Of(c)) /\ UNCHANGED pc
            /\ UNCHANGED <<kid, w, slot, info, rep>>
Exit(c) == /\ pc[c] = "exit" /\ rep' = [rep EXCEPT ![Of(c)] = Append(@, IF kid[c] = "no" THEN 0 ELSE Code(c))]
           /\ pc' = [pc EXCEPT ![c] = "done"] /\ (IF Bad = "Slot" THEN UNCHANGED info ELSE Release(slot[c]))
           /\ UNCHANGED <<kid, w, pipe, slot, got>>
\* the child
Write(c) == /\ kid[c] = "run" /\ w[c] < Total
            /\ IF Len(pipe[c]) < Cap THEN pipe' = [pipe EXCEPT ![c] = Append(@, <<c, w[c] + 1>>)]
               ELSE Bad = "Lossy" /\ UNCHANGED pipe    \* told that there is no room, it goes on
            /\ w' = [w EXCEPT ![c] = @ + 1] /\ UNCHANGED <<kid, pc, slot, info, got, rep>>
Die(c) == /\ kid[c] = "run" /\ w[c] = Total /\ kid' = [kid EXCEPT ![c] = "zombie"] /\ UNCHANGED <<w, pipe, pc, slot, info, got, rep>>
Step(c) == Start(c) \/ Loop(c) \/ Drain(c) \/ Exit(c)
Next == \E c \in Kids : Spawn(c) \/ Step(c) \/ Write(c) \/ Die(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Kids : WF_vars(Step(c)) /\ WF_vars(Write(c)) /\ WF_vars(Die(c)) /\ WF_vars(Spawn(c))
----
\* what the contract (Child.tla) demands
InOrder == \A c \in Kids : /\ Len(got[c]) <= Total /\ \A i \in 1 .. Len(got[c]) : got[c][i] = <<c, i>>
Reported == \A c \in Kids : /\ Len(rep[c]) <= 1
                            /\ IF rep[c] = << >> THEN TRUE ELSE kid[c] = "gone" /\ Len(got[c]) = Total /\ rep[c][1] = Code(c)
TypeOK == \A c \in Kids : Len(pipe[c]) <= Cap
Ends == \A c \in Kids : <>(pc[c] = "failed" \/ rep[c] # << >>)
=============================================================================
