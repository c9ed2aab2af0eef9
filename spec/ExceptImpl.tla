------------------------------ MODULE ExceptImpl ------------------------------
(* How except.c does it: every protected block is a context on the stack of its task, with a stage (-1 start, 0 body,     *)
(* 1 handlers, 2 finally, 3 done) and a state (0 fine, 1 thrown, 4 caught, 5 caught and thrown again); the thread has one  *)
(* pointer to its innermost context and one to its innermost guard, both handed over when tasks are switched; throwing     *)
(* releases the context's protected pointers and jumps back to the context, whose next stage decides.                      *)
(* Run in lock step with the contract of Except.tla: whatever the code executes next has to be what the contract demands.  *)
EXTENDS Except
CONSTANTS Tasks, MaxB, MaxOps, Kinds, UseFin, UseGuard, UsePtr,
          SharedCtx,    \* the pointers are not handed over
          TwiceIf,      \* a catch_if that did not handle the exception gets it again in the finally stage
          StopNull,     \* a null pointer ends the release of the older ones
          ThreadErr     \* the handled exception is looked up in the thread's scope
VARIABLES C, loc, arena, cur, saved, q, garb, ops, bad, lasterr
ivars == <<C, loc, arena, cur, saved, q, garb, ops, bad, lasterr>>
vars == <<evars, ivars>>
Exs == {"a", "b"}
Root == [k |-> "root", own |-> 0, h |-> <<>>, fin |-> FALSE, stage |-> 0, state |-> 0, ex |-> "", next |-> 0, st |-> <<>>, d |-> <<>>, ar |-> 0]
Odd(n) == n \in {1, 5}
Orr(n) == IF n = 0 THEN 1 ELSE IF n = 4 THEN 5 ELSE n
S == [C |-> C, loc |-> loc, ar |-> arena, q |-> <<>>, e |-> lasterr]
Ctx(s, b) == IF b = 0 THEN Root ELSE s.C[b]
Emit(s, item) == [s EXCEPT !.q = Append(@, item)]

(* the objects to release, newest first: null ones are skipped, the same object twice in a row is released once *)
RECURSIVE Rels(_, _)
Rels(st, last) ==
    IF st = <<>> THEN <<>>
    ELSE LET v == val[Last1(st)] IN
         IF v = 0 THEN (IF StopNull THEN <<>> ELSE Rels(Front1(st), last))
         ELSE IF v = last THEN Rels(Front1(st), last)
         ELSE <<[k |-> "rel", v |-> v]>> \o Rels(Front1(st), v)

RECURSIVE Adv(_, _), Jump(_, _)
Jump(s, x) ==
    LET b == s.loc IN
    IF b = 0 THEN Emit(s, [k |-> "dead"])
    ELSE LET c == s.C[b]
             s1 == [s EXCEPT !.q = @ \o Rels(c.st, 0), !.C[b] = [c EXCEPT !.st = <<>>, !.ex = x, !.state = Orr(@)]] IN
         Adv(s1, b)
Adv(s, b) ==
    LET c0 == s.C[b]
        c == [c0 EXCEPT !.stage = @ + 1]
        s1 == [s EXCEPT !.C[b] = c]
        hs == {i \in 1..Len(c.h) : c.h[i] \in {AnyX, IfX, c.ex}}
        here == c.state = 1 /\ hs # {} /\ (c.stage = 1 \/ (TwiceIf /\ c.stage = 2)) IN
    IF c.stage >= 3 THEN
        LET s2 == [s1 EXCEPT !.loc = IF @ = b THEN c.next ELSE @] IN
        IF Odd(c.state) THEN Jump(s2, c.ex) ELSE Emit(s2, [k |-> "after", id |-> b])
    ELSE IF c.k = "try" /\ here THEN
        Emit([s1 EXCEPT !.C[b].state = IF c.h[First(hs)] = IfX THEN @ ELSE 4, !.e = c.ex], [k |-> "catch", id |-> b, i |-> First(hs), x |-> c.ex])
    ELSE IF c.k = "guard" /\ c.state = 1 /\ c.stage = 1 THEN
        Emit([s1 EXCEPT !.q = @ \o [i \in 1..Len(c.d) |-> [k |-> "clean", id |-> c.d[Len(c.d) + 1 - i], b |-> b]], !.e = c.ex], [k |-> "gend", b |-> b])
    ELSE IF c.stage = 2 /\ c.fin THEN Emit([s1 EXCEPT !.loc = c.next, !.e = c.ex], [k |-> "fin", id |-> b])
    ELSE Adv(s1, b)
Set(s) == C' = s.C /\ loc' = s.loc /\ arena' = s.ar /\ q' = s.q /\ lasterr' = s.e

Init == /\ EInit(Tasks) /\ val = <<>>
        /\ C = <<>> /\ loc = 0 /\ arena = 0 /\ cur = 1 /\ saved = [t \in Tasks |-> [loc |-> 0, ar |-> 0]] /\ q = <<>>
        /\ garb = [t \in Tasks |-> <<>>] /\ ops = 0 /\ bad = FALSE /\ lasterr = ""
Op == ops < MaxOps /\ q = <<>> /\ ops' = ops + 1 /\ ~bad /\ UNCHANGED <<cur, saved, bad>>
t0 == cur
U_Start == q = <<>> /\ ~bad /\ Start(t0) /\ UNCHANGED ivars
U_Try == \E h \in Kinds, f \in UseFin : LET id == Len(C) + 1 IN
    /\ Op /\ id <= MaxB /\ Try(t0, id, h, f) /\ UNCHANGED garb
    /\ Set([S EXCEPT !.C = Append(@, [Root EXCEPT !.k = "try", !.own = t0, !.h = h, !.fin = f, !.next = loc]), !.loc = id])
U_Guard == LET id == Len(C) + 1 IN
    /\ UseGuard /\ Op /\ id <= MaxB /\ Guard(t0, id) /\ UNCHANGED garb
    /\ Set([S EXCEPT !.C = Append(@, [Root EXCEPT !.k = "guard", !.own = t0, !.next = loc, !.ar = arena]), !.loc = id, !.ar = id])
U_BodyEnd ==
    /\ Op /\ Len(stk[t0]) > 1 /\ BodyEnd(t0, Top(t0).id) /\ UNCHANGED garb
    /\ LET b == Top(t0).id  c == C[b] IN
       IF c.k = "guard" THEN Set([S EXCEPT !.q = [i \in 1..Len(c.d) |-> [k |-> "clean", id |-> c.d[Len(c.d) + 1 - i], b |-> b]] \o <<[k |-> "gend", b |-> b]>>])
       ELSE Set(Adv(S, b))
U_CatchEnd == Op /\ Len(stk[t0]) > 1 /\ CatchEnd(t0, Top(t0).id) /\ Set(Adv(S, Top(t0).id)) /\ UNCHANGED garb
U_FinEnd == Op /\ Len(stk[t0]) > 1 /\ FinEnd(t0, Top(t0).id) /\ Set(Adv(S, Top(t0).id)) /\ UNCHANGED garb
U_Throw == \E x \in Exs : Op /\ Len(stk[t0]) > 1 /\ Throw(t0, x) /\ Set(Jump(S, x)) /\ UNCHANGED garb
U_If == /\ Op /\ Go(t0) /\ Len(stk[t0]) > 1 /\ Top(t0).s = "catch" /\ Top(t0).h = <<IfX>> /\ UNCHANGED garb
        /\ LET r == "a" = (IF ThreadErr THEN lasterr ELSE C[loc].ex) IN
           \/ /\ ENABLED IfRes(t0, Top(t0).id, "a", r) /\ IfRes(t0, Top(t0).id, "a", r)
              /\ Set([S EXCEPT !.C[loc].state = IF r THEN 4 ELSE @])
           \/ /\ ~ENABLED IfRes(t0, Top(t0).id, "a", r) /\ Set([S EXCEPT !.q = <<[k |-> "bad"]>>]) /\ UNCHANGED evars
Stuck == q # <<>> /\ Head(q).k = "bad" /\ ~bad /\ bad' = TRUE /\ UNCHANGED <<evars, C, loc, arena, cur, saved, q, garb, ops, lasterr>>
NDef == Len(garb[t0]) + Cardinality({i \in 1..Len(C) : C[i].d # <<>>})
U_Defer == LET id == ops IN
    /\ UseGuard /\ Op /\ stk[t0] # <<>> /\ Defer(t0, id)
    /\ IF arena # 0 THEN Set([S EXCEPT !.C[arena].d = Append(@, id)]) /\ UNCHANGED garb
       ELSE garb' = [garb EXCEPT ![t0] = Append(@, id)] /\ UNCHANGED <<C, loc, arena, q, lasterr>>
U_Prot == \E v \in 0..1 : LET id == Len(val) + 1 IN
    /\ UsePtr /\ Op /\ loc # 0 /\ id <= 3 /\ Prot(t0, id, IF v = 0 THEN 0 ELSE id) /\ Set([S EXCEPT !.C[loc].st = Append(@, id)]) /\ UNCHANGED garb
U_Unprot == /\ UsePtr /\ Op /\ loc # 0 /\ C[loc].st # <<>> /\ stk[t0] # <<>> /\ stk[t0][Owner(stk[t0])].p # <<>>
            /\ Unprot(t0, Last1(stk[t0][Owner(stk[t0])].p)) /\ Set([S EXCEPT !.C[loc].st = Front1(@)]) /\ UNCHANGED garb
U_Finish == /\ Op /\ stk[t0] # <<>> /\ Len(stk[t0]) = 1 /\ Top(t0).s = "body" /\ Finish(t0)
            /\ Set([S EXCEPT !.q = [i \in 1..Len(garb[t0]) |-> [k |-> "clean", id |-> garb[t0][Len(garb[t0]) + 1 - i], b |-> 0]]])
            /\ garb' = [garb EXCEPT ![t0] = <<>>]
Switch == \E u \in Tasks \ {cur} :
    /\ q = <<>> /\ ~bad /\ cur' = u /\ mode[cur] \in {"run"}
    /\ IF SharedCtx THEN UNCHANGED <<loc, arena, saved>>
       ELSE saved' = [saved EXCEPT ![cur] = [loc |-> loc, ar |-> arena]] /\ loc' = saved[u].loc /\ arena' = saved[u].ar
    /\ UNCHANGED <<evars, C, q, garb, ops, bad, lasterr>>

(* what the code executes next, and the step of the contract that allows it *)
H == Head(q)
Allowed == CASE H.k = "rel" -> Rel(t0, H.v)
             [] H.k = "catch" -> Catch(t0, H.id, H.i, H.x)
             [] H.k = "fin" -> Fin(t0, H.id)
             [] H.k = "after" -> After(t0, H.id)
             [] H.k = "clean" -> Clean(t0, H.id)
             [] H.k = "dead" -> Uncaught(t0) /\ mode' = [mode EXCEPT ![t0] = "dead"] /\ UNCHANGED <<stk, exc, val>>
Visible == q # <<>> /\ H.k \notin {"gend", "bad"}
Do == /\ Visible /\ ~bad
      /\ IF ENABLED Allowed THEN Allowed /\ q' = Tail(q) /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED <<evars, q>>
      /\ UNCHANGED <<C, loc, arena, cur, saved, garb, ops, lasterr>>
(* a cleanup of a guard that is being left by an exception may recover: seen between two cleanups *)
Recovers == /\ q # <<>> /\ H.k = "gend" /\ ~bad /\ mode[t0] = "unw" /\ C[H.b].state = 1 /\ Top(t0).k = "guard" /\ Top(t0).id = H.b
            /\ Recover(t0, exc[t0], TRUE) /\ C' = [C EXCEPT ![H.b].state = 4]
            /\ UNCHANGED <<loc, arena, cur, saved, q, garb, ops, bad, lasterr>>
GuardEnd == /\ q # <<>> /\ H.k = "gend" /\ ~bad
            /\ LET b == H.b  s == [S EXCEPT !.C[b].d = <<>>, !.ar = C[b].ar, !.q = Tail(q)] IN Set(Adv(s, b))
            /\ UNCHANGED <<evars, cur, saved, garb, ops, bad>>
Next0 == U_Start \/ U_Try \/ U_Guard \/ U_BodyEnd \/ U_CatchEnd \/ U_FinEnd \/ U_Throw \/ U_If \/ U_Defer \/ U_Prot \/ U_Unprot \/ U_Finish
         \/ Switch \/ Do \/ Recovers \/ GuardEnd \/ Stuck
Spec == Init /\ [][Next0]_vars
KAll == {<<>>, <<"a">>, <<AnyX>>, <<IfX>>, <<"a", AnyX>>}
KFew == {<<>>, <<"a">>, <<IfX>>}
KAny == {<<>>, <<AnyX>>}
Conform == ~bad
(* the code never stops while the contract still has something to execute *)
Goes == q = <<>> => \A t \in Tasks : mode[t] # "unw"
=============================================================================
