------------------------------- MODULE Deque -------------------------------
(* Contract of a work queue with one owner and any number of thieves.        *)
(*  q       the items, oldest first                                          *)
(*  pend    what each thread's unfinished call asks, and its answer once it  *)
(*          took effect                                                      *)
(*  out     items whose push returned but is not yet visible to the others   *)
(*          (a processor may delay a store; it is visible at the latest when *)
(*          the owner's next removal takes effect or the owner is joined)    *)
(* A removal takes effect at one moment between call and return: a steal     *)
(* takes the oldest item, a take the newest.  "empty" needs a moment of the  *)
(* call at which nothing was queued, or that another thread's successful      *)
(* removal overlaps it; "abort" (steal only) needs the latter.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, pend, out
dvars == <<q, pend, out>>

Owner == 0
EmptyAns == 0
AbortAns == 255
Idle == [op |-> "none", v |-> 0, done |-> FALSE, ans |-> 0, cont |-> FALSE]

DInit(Threads) == q = <<>> /\ pend = [t \in Threads |-> Idle] /\ out = <<>>

Call(t, op, v) == /\ pend[t].op = "none"
                  /\ op \in {"push", "take"} => t = Owner
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> v, done |-> FALSE, ans |-> 0,
                                               cont |-> \E u \in DOMAIN pend : pend[u].done /\ pend[u].ans # EmptyAns]]
                  /\ out' = IF op = "push" THEN Append(out, v) ELSE out
                  /\ UNCHANGED q

(* a pushed item becomes visible *)
Show == out # <<>> /\ q' = Append(q, Head(out)) /\ out' = Tail(out) /\ UNCHANGED pend

Removed(t, x, nq) == /\ q' = nq /\ UNCHANGED out
                     /\ pend' = [u \in DOMAIN pend |->
                           IF u = t THEN [pend[u] EXCEPT !.done = TRUE, !.ans = x]
                           ELSE IF pend[u].op # "none" THEN [pend[u] EXCEPT !.cont = TRUE] ELSE pend[u]]
Steal(t) == /\ pend[t].op = "steal" /\ ~pend[t].done /\ q # <<>>
            /\ Removed(t, Head(q), Tail(q))
Take(t)  == /\ pend[t].op = "take" /\ ~pend[t].done /\ q # <<>> /\ out = <<>>
            /\ Removed(t, q[Len(q)], SubSeq(q, 1, Len(q) - 1))
Nothing(t) == /\ pend[t].op \in {"steal", "take"} /\ ~pend[t].done
              /\ (q = <<>> /\ (pend[t].op = "take" => out = <<>>)) \/ pend[t].cont
              /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].ans = EmptyAns]
              /\ UNCHANGED <<q, out>>
Ret(t, op, v) == /\ pend[t].op = op
                 /\ CASE op = "push" -> v = 0
                      [] v = AbortAns /\ op = "steal" -> pend[t].cont /\ ~pend[t].done
                      [] OTHER -> pend[t].done /\ pend[t].ans = v
                 /\ pend' = [pend EXCEPT ![t] = Idle]
                 /\ UNCHANGED <<q, out>>
Join == out = <<>> /\ (\A t \in DOMAIN pend : pend[t].op = "none") /\ UNCHANGED dvars
=============================================================================
