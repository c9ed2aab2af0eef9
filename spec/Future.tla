------------------------------- MODULE Future -------------------------------
(* A function given to a thread of its own: runs once with its arguments,    *)
(* and whoever asks obtains what it gave, its value or its exception, and    *)
(* nothing before it gave it.  Per-thread variables: vars[<<thread, name>>]. *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES fut, var
fvars == <<fut, var>>
FInit == fut = << >> /\ var = << >>
Start(f) == f \notin DOMAIN fut /\ fut' = (f :> [st |-> "new", kind |-> "", v |-> 0, x |-> ""]) @@ fut /\ UNCHANGED var
Run(f) == f \in DOMAIN fut /\ fut[f].st = "new" /\ fut' = [fut EXCEPT ![f].st = "run"] /\ UNCHANGED var
Ret(f, k, v, x) == f \in DOMAIN fut /\ fut[f].st = "run" /\ fut' = [fut EXCEPT ![f] = [st |-> "ended", kind |-> k, v |-> v, x |-> x]] /\ UNCHANGED var
Done(f, b) == f \in DOMAIN fut /\ (IF b THEN fut[f].st = "ended" ELSE TRUE) /\ UNCHANGED fvars
Got(f, k, v, x) == f \in DOMAIN fut /\ fut[f] = [st |-> "ended", kind |-> k, v |-> v, x |-> x] /\ UNCHANGED fvars
Set(t, n, v) == var' = (<<t, n>> :> v) @@ var /\ UNCHANGED fut
Get(t, n, v) == v = (IF <<t, n>> \in DOMAIN var THEN var[<<t, n>>] ELSE 0) /\ UNCHANGED fvars
AllEnded == \A f \in DOMAIN fut : fut[f].st = "ended"
=============================================================================
