------------------------------- MODULE Child -------------------------------
(* Children of a program.  Each is started with what it is going to write    *)
(* and how it is going to end; its output is handed over in pieces, in       *)
(* order, all of it before its end is reported, and that once.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES short, \* times the system had no process to give
          kid    \* child -> [total, r, g, k, got, st]: bytes it writes, exit status, signal, kind; bytes handed over; "new", "run", "over"
CInit == kid = << >> /\ short = 0
Spawn(c, total, r, g, k) == c \notin DOMAIN kid /\ kid' = (c :> [total |-> total, r |-> r, g |-> g, k |-> k, got |-> 0, st |-> "new"]) @@ kid /\ UNCHANGED short
NoProcess == short' = short + 1 /\ UNCHANGED kid
\* started (a program that does not exist is known by its end), or not for want of a process
Spawned(c, r) == /\ kid[c].st = "new"
                 /\ IF r = 1 THEN kid' = [kid EXCEPT ![c].st = "run"] /\ UNCHANGED short
                    ELSE short > 0 /\ short' = short - 1 /\ kid' = [kid EXCEPT ![c].st = "over"]
Out(c, n, ok) == /\ c \in DOMAIN kid /\ kid[c].st = "run" /\ kid[c].k \in {"io", "exec"}
                 /\ ok = 1 /\ kid[c].got + n <= kid[c].total
                 /\ kid' = [kid EXCEPT ![c].got = @ + n] /\ UNCHANGED short
\* its end: after all it has written, with its status and signal; it is no more
Exit(c, r, g, alive) == /\ c \in DOMAIN kid /\ kid[c].st = "run" /\ kid[c].got = kid[c].total
                        /\ r = kid[c].r /\ g = kid[c].g /\ alive = 0
                        /\ kid' = [kid EXCEPT ![c].st = "over"] /\ UNCHANGED short
\* asked whether it has ended
Finish(c, r) == r = (IF kid[c].st = "over" THEN 1 ELSE 0) /\ UNCHANGED <<kid, short>>
\* waited for without ending yet
Not(c, x) == x = 1 /\ kid[c].st = "run" /\ UNCHANGED <<kid, short>>
\* all have ended: nothing of them is left open
Over(open) == (\A c \in DOMAIN kid : kid[c].st = "over") /\ short = 0 /\ open = 0 /\ UNCHANGED <<kid, short>>
=============================================================================
