------------------------------ MODULE FdTable ------------------------------
(* Contract of the pseudo descriptor table: slots 0..N-1, each free or held  *)
(* for one object.  obj = -1: created, object not assigned yet.  ending: the *)
(* closing call is under way; the number may already be handed out again.    *)
EXTENDS Integers, FiniteSets
CONSTANT N
VARIABLE tab
Free == [used |-> FALSE, type |-> "", obj |-> -1, by |-> -1, ending |-> FALSE]
FInit == tab = [p \in 0..(N - 1) |-> Free]
(* asking for a given number gets it if it is free (judged when nothing else *)
(* is going on: otherwise it may have been taken for part of the call)      *)
NewAs(t, p, type, want, alone) ==
    /\ p \in DOMAIN tab /\ ~tab[p].used
    /\ (alone /\ want \in DOMAIN tab /\ ~tab[want].used /\ ~tab[want].ending) => p = want
    /\ tab' = [tab EXCEPT ![p] = [used |-> TRUE, type |-> type, obj |-> want, by |-> t, ending |-> FALSE]]
NewRefused == (\A p \in 1..(N - 1) : tab[p].used \/ tab[p].ending) /\ UNCHANGED tab
Assign(p, h) == tab[p].used /\ tab' = [tab EXCEPT ![p].obj = h]
Valid(p) == p \in DOMAIN tab /\ tab[p].used /\ tab[p].obj # -1
Maps(p) == IF Valid(p) THEN tab[p].obj ELSE p
Close(t, p) == tab[p].used /\ tab[p].by = t /\ tab' = [tab EXCEPT ![p] = [Free EXCEPT !.ending = TRUE]]
Closed(p) == tab' = [tab EXCEPT ![p].ending = FALSE]
=============================================================================
