------------------------------- MODULE Except -------------------------------
(* Exceptions, deferred cleanups and protected pointers (C15, C16, C17): what a structured program of protected blocks   *)
(* (body, handlers, finally), guards and functions has to execute next.  Every task has a stack of open blocks of its    *)
(* own.  An exception in flight ("unw") releases the protected pointers of the innermost block, then enters its first    *)
(* matching handler, or runs its finally section / its cleanups, and goes on outwards.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Holds(x) == IF x THEN TRUE ELSE FALSE

VARIABLES stk,     \* task -> sequence of open blocks, innermost last
          mode,    \* task -> "none" | "run" | "unw" | "dead" | "end"
          exc,     \* task -> exception in flight
          val      \* protected pointer -> its object (0: null)
evars == <<stk, mode, exc, val>>

AnyX == "*"  IfX == "?"
(* s: section executing; x: exception being handled, or held while the finally section runs ("" none); ok: it counts as handled *)
Block(k, id, h, fin) == [k |-> k, id |-> id, h |-> h, fin |-> fin, s |-> "body", x |-> "", ok |-> TRUE, d |-> <<>>, p |-> <<>>]
EInit(tasks) == /\ stk = [t \in tasks |-> <<>>] /\ mode = [t \in tasks |-> "none"] /\ exc = [t \in tasks |-> ""] /\ val = <<>>

Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
Top(t) == Last1(stk[t])
SetTop(s, b) == [s EXCEPT ![Len(s)] = b]
Match(f, x) == {i \in 1..Len(f.h) : f.h[i] \in {AnyX, IfX, x}}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

(* what an exception x meets next, given the open blocks: the pending blocks are closed on the way *)
RECURSIVE Meet(_, _)
Meet(s, x) ==
    IF s = <<>> THEN [need |-> "dead", s |-> s]
    ELSE LET f == Last1(s) IN
         IF f.s = "fin" THEN Meet(Front1(s), x)                  \* an exception out of a finally section replaces the one it held
         ELSE IF f.p # <<>> THEN [need |-> "rel", s |-> s]
         ELSE IF f.k = "task" THEN [need |-> IF f.id = 0 /\ f.d # <<>> THEN "clean" ELSE "dead", s |-> s]
         (* the main program, the thread's own scope, runs its cleanups even then *)
         ELSE IF f.k = "guard" THEN (IF f.d # <<>> THEN [need |-> "clean", s |-> s] ELSE
                                     IF f.ok THEN [need |-> "after", s |-> s] ELSE Meet(Front1(s), x))
         ELSE IF f.s = "body" /\ Match(f, x) # {} THEN [need |-> "catch", s |-> s]
         ELSE IF f.fin THEN [need |-> "fin", s |-> s]
         ELSE Meet(Front1(s), x)
(* null pointers need no release *)
RECURSIVE Strip(_, _)
Strip(s, v) == IF s = <<>> THEN s
               ELSE LET f == Last1(s) IN
                    IF f.p # <<>> /\ v[Last1(f.p)] = 0 THEN Strip(SetTop(s, [f EXCEPT !.p = Front1(@)]), v) ELSE s
RECURSIVE Reach(_, _, _)
Reach(s, x, v) == LET m == Meet(s, x) IN
    IF m.need = "rel" /\ Strip(m.s, v) # m.s THEN Reach(Strip(m.s, v), x, v) ELSE m
Next(t) == Reach(stk[t], exc[t], val)

Go(t) == mode[t] = "run"
Unw(t) == mode[t] = "unw"
Same == UNCHANGED val

Start(t) == /\ mode[t] = "none" /\ mode' = [mode EXCEPT ![t] = "run"] /\ stk' = [stk EXCEPT ![t] = <<Block("task", t, <<>>, FALSE)>>]
            /\ UNCHANGED <<exc, val>>
Plain(t) == Go(t) /\ UNCHANGED evars
Try(t, id, h, fin) == Go(t) /\ stk' = [stk EXCEPT ![t] = Append(@, Block("try", id, h, fin))] /\ UNCHANGED <<mode, exc, val>>
Guard(t, id) == Go(t) /\ stk' = [stk EXCEPT ![t] = Append(@, [Block("guard", id, <<>>, FALSE) EXCEPT !.ok = FALSE])] /\ UNCHANGED <<mode, exc, val>>
BodyEnd(t, id) == /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "body" /\ Top(t).p = <<>>
                  /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.s = "past"])] /\ UNCHANGED <<mode, exc, val>>
Throw(t, x) == Go(t) /\ mode' = [mode EXCEPT ![t] = "unw"] /\ exc' = [exc EXCEPT ![t] = x] /\ UNCHANGED <<stk, val>>
Rethrow(t, id) == Top(t).id = id /\ Top(t).s = "catch" /\ Throw(t, Top(t).x)

Rel(t, v) ==
    LET n == Next(t)  f == Last1(n.s) IN
    /\ Unw(t) /\ n.need = "rel" /\ v = val[Last1(f.p)]
    /\ stk' = [stk EXCEPT ![t] = SetTop(n.s, [f EXCEPT !.p = Front1(@)])]
    /\ UNCHANGED <<mode, exc, val>>
Catch(t, id, i, x) ==
    LET n == Next(t)  f == Last1(n.s) IN
    /\ Unw(t) /\ n.need = "catch" /\ f.id = id /\ i = First(Match(f, exc[t])) /\ x = exc[t]
    /\ stk' = [stk EXCEPT ![t] = SetTop(n.s, [f EXCEPT !.s = "catch", !.x = x, !.ok = f.h[i] # IfX])]
    /\ mode' = [mode EXCEPT ![t] = "run"] /\ UNCHANGED <<exc, val>>
(* a handler for any exception asks which one it is *)
IfRes(t, id, x, r) ==
    /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "catch" /\ Holds(r = (x = Top(t).x))
    /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.ok = r])] /\ UNCHANGED <<mode, exc, val>>
(* a handler asks for the message of the exception it handles *)
Msg(t, id, x) == Go(t) /\ Top(t).id = id /\ Top(t).s = "catch" /\ x = Top(t).x /\ UNCHANGED evars
CatchEnd(t, id) ==
    /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "catch" /\ Top(t).p = <<>>
    /\ IF Top(t).ok THEN stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.s = "past"])] /\ UNCHANGED <<mode, exc>>
       ELSE mode' = [mode EXCEPT ![t] = "unw"] /\ exc' = [exc EXCEPT ![t] = Top(t).x] /\ UNCHANGED stk
    /\ UNCHANGED val
Fin(t, id) ==
    \/ /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "past" /\ Top(t).fin
       /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.s = "fin", !.x = ""])] /\ UNCHANGED <<mode, exc, val>>
    \/ LET n == Next(t)  f == Last1(n.s) IN
       /\ Unw(t) /\ n.need = "fin" /\ f.id = id
       /\ stk' = [stk EXCEPT ![t] = SetTop(n.s, [f EXCEPT !.s = "fin", !.x = exc[t]])]
       /\ mode' = [mode EXCEPT ![t] = "run"] /\ UNCHANGED <<exc, val>>
FinEnd(t, id) ==
    /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "fin"
    /\ IF Top(t).x = "" THEN stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.s = "past", !.fin = FALSE])] /\ UNCHANGED <<mode, exc>>
       ELSE mode' = [mode EXCEPT ![t] = "unw"] /\ exc' = [exc EXCEPT ![t] = Top(t).x] /\ UNCHANGED stk
    /\ UNCHANGED val
After(t, id) ==
    \/ /\ Go(t) /\ Top(t).id = id /\ Top(t).s = "past" /\ Top(t).d = <<>>
       /\ Top(t).k = "try" => ~Top(t).fin
       /\ stk' = [stk EXCEPT ![t] = Front1(@)] /\ UNCHANGED <<mode, exc, val>>
    \/ LET n == Next(t) IN                                        \* a cleanup of the guard recovered from the exception
       /\ Unw(t) /\ n.need = "after" /\ Last1(n.s).id = id
       /\ stk' = [stk EXCEPT ![t] = Front1(n.s)] /\ mode' = [mode EXCEPT ![t] = "run"] /\ UNCHANGED <<exc, val>>

(* cleanups belong to the innermost guard, or to the task *)
Scope(s) == First({i \in 1..Len(s) : s[i].k \in {"guard", "task"} /\ \A j \in (i+1)..Len(s) : s[j].k = "try"})
Defer(t, id) == /\ Go(t) /\ stk' = [stk EXCEPT ![t] = [@ EXCEPT ![Scope(@)].d = Append(@, id)]] /\ UNCHANGED <<mode, exc, val>>
Clean(t, id) ==
    \/ /\ Go(t) /\ Top(t).d # <<>> /\ Last1(Top(t).d) = id /\ Top(t).s = "past"
       /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.d = Front1(@)])] /\ UNCHANGED <<mode, exc, val>>
    \/ LET n == Next(t)  f == Last1(n.s) IN
       /\ Unw(t) /\ n.need = "clean" /\ Last1(f.d) = id
       /\ stk' = [stk EXCEPT ![t] = SetTop(n.s, [f EXCEPT !.d = Front1(@)])] /\ UNCHANGED <<mode, exc, val>>
Recover(t, x, r) ==
    /\ Unw(t) /\ Top(t).k = "guard" /\ r /\ x = exc[t]
    /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.ok = TRUE])] /\ UNCHANGED <<mode, exc, val>>

(* protected pointers belong to the innermost block that is not in its finally section *)
Owner(s) == First({i \in 1..Len(s) : s[i].s # "fin" /\ \A j \in (i+1)..Len(s) : s[j].s = "fin"})
Prot(t, id, v) == /\ Go(t) /\ stk' = [stk EXCEPT ![t] = [@ EXCEPT ![Owner(@)].p = Append(@, id)]]
                  /\ val' = [i \in 1..id |-> IF i = id THEN v ELSE IF i <= Len(val) THEN val[i] ELSE 0] /\ UNCHANGED <<mode, exc>>
PSet(t, id, v) == Go(t) /\ val' = [val EXCEPT ![id] = v] /\ UNCHANGED <<stk, mode, exc>>
Unprot(t, id) == /\ Go(t) /\ Last1(stk[t][Owner(stk[t])].p) = id
                 /\ stk' = [stk EXCEPT ![t] = [@ EXCEPT ![Owner(@)].p = Front1(@)]] /\ UNCHANGED <<mode, exc, val>>

Finish(t) == /\ Go(t) /\ Len(stk[t]) = 1
             /\ stk' = [stk EXCEPT ![t] = SetTop(@, [Top(t) EXCEPT !.s = "past"])] /\ mode' = [mode EXCEPT ![t] = "run"] /\ UNCHANGED <<exc, val>>
(* an exception nobody catches ends the program *)
Uncaught(t) == Unw(t) /\ Next(t).need = "dead"
AllEnded == \A t \in DOMAIN mode : mode[t] # "unw" /\ (mode[t] = "run" => Len(stk[t]) = 1 /\ Top(t).d = <<>>)
ExOK == \A t \in DOMAIN mode : mode[t] = "run" => stk[t] # <<>>
=============================================================================
