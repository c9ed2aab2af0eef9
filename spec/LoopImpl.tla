------------------------------ MODULE LoopImpl ------------------------------
(* The event loop as built: kernel interest lists with lazy removal, the events collected in one wait, the timeout wheel *)
(* and the sorted timer list.  It runs in product with the contract (Loop): every output is checked against it.       *)
(* A callback's own operations appear as operations between two deliveries.                                           *)
EXTENDS Loop

CONSTANTS NFd, NLoop, NTm, V, Budget, MaxClock, Feat, Variant
(* Variant: "ok", or a known defect: "nogen" (events of an older registration delivered), "nomask" (directions no longer *)
(* registered reported), "stalewheel" (timeouts disarmed by an earlier callback of the step fire), "oldnow" (deadlines    *)
(* counted from the last turn), "norelink" (a timer armed again outside its function stays in its old place)             *)

Fds == 1..NFd  Loops == 1..NLoop  Tms == 1..NTm
VARIABLES tgt,      \* f -> [l, d, gen, idx]  (idx = V: no timeout)
          ep,       \* loop -> f -> [on, d, gen]
          rdy,      \* f -> readiness
          evq,      \* events collected and not looked at yet
          ph,       \* "idle", "fds", "timers", "wheel", "step"
          wheel,    \* loop -> idx -> set of f
          base,     \* loop -> [idx, time]
          lnow,     \* loop -> time of the last turn
          bits,     \* copy of the wheel's current set during a step
          tq,       \* loop -> sequence of timers, by deadline
          left      \* operations left
ivars == <<tgt, ep, rdy, evq, ph, wheel, base, lnow, bits, tq, left>>

Off == [on |-> FALSE, d |-> 0, gen |-> 0]
IInit == /\ LInit(Fds, Tms, {})
         /\ tgt = [f \in Fds |-> [l |-> 0, d |-> 0, gen |-> 0, idx |-> V]]
         /\ ep = [x \in Loops |-> [f \in Fds |-> Off]]
         /\ rdy = [f \in Fds |-> 0] /\ evq = <<>> /\ ph = "idle"
         /\ wheel = [x \in Loops |-> [i \in 0..(V-1) |-> {}]]
         /\ base = [x \in Loops |-> [idx |-> 0, time |-> 0]] /\ lnow = [x \in Loops |-> 0]
         /\ bits = {} /\ tq = [x \in Loops |-> <<>>] /\ left = Budget

Op == left > 0 /\ left' = left - 1
(* wheel position of a deadline n seconds from now *)
NowOf(x) == IF Variant = "oldnow" THEN lnow[x] ELSE now
Delta(x, n) == NowOf(x) + n - base[x].time
WheelOff(f) == IF tgt[f].idx = V \/ tgt[f].l = 0 THEN wheel ELSE [wheel EXCEPT ![tgt[f].l][tgt[f].idx] = @ \ {f}]
Pos(x, n) == (base[x].idx + Delta(x, n)) % V

IAdd == \E x \in Loops, f \in Fds, d \in {0, 1, 2, 3}, n \in (IF "to" \in Feat THEN {0, 1, 2} ELSE {0}) :
    /\ Op /\ tgt[f].l \in {0, x} /\ (n = 0 \/ Delta(x, n) < V)
    /\ ("fd" \in Feat \/ d = 0)
    /\ Add(x, f, d, 1, left, n, now)
    /\ LET g == tgt[f].gen + 1  w == WheelOff(f) IN
       /\ tgt' = [tgt EXCEPT ![f] = [l |-> x, d |-> d, gen |-> g, idx |-> IF n = 0 THEN V ELSE Pos(x, n)]]
       /\ ep' = IF d = 0 THEN ep ELSE [ep EXCEPT ![x][f] = [on |-> TRUE, d |-> d, gen |-> g]]
       /\ wheel' = IF n = 0 THEN w ELSE [w EXCEPT ![x][Pos(x, n)] = @ \cup {f}]
    /\ UNCHANGED <<rdy, evq, ph, base, lnow, bits, tq>>
IDel == \E f \in Fds :
    /\ Op /\ tgt[f].l # 0
    /\ Del(f, 0, now)
    /\ tgt' = [tgt EXCEPT ![f].l = 0, ![f].d = 0, ![f].idx = V] /\ wheel' = WheelOff(f)
    /\ UNCHANGED <<ep, rdy, evq, ph, base, lnow, bits, tq>>
ISet == \E f \in Fds, d \in {0, 1, 2, 3} :
    /\ "fd" \in Feat /\ Op /\ tgt[f].l # 0 /\ tgt[f].d # d
    /\ SetDirs(f, d, 0, now)
    /\ tgt' = [tgt EXCEPT ![f].d = d]
    /\ ep' = [ep EXCEPT ![tgt[f].l][f] = IF d = 0 THEN Off ELSE [on |-> TRUE, d |-> d, gen |-> tgt[f].gen]]
    /\ UNCHANGED <<rdy, evq, ph, wheel, base, lnow, bits, tq>>
(* the number is closed (leaves every interest list) and used for something else *)
IReopen == \E f \in Fds :
    /\ "fd" \in Feat /\ Op /\ tgt[f].l = 0
    /\ ep' = [x \in Loops |-> [ep[x] EXCEPT ![f] = Off]] /\ rdy' = [rdy EXCEPT ![f] = 0]
    /\ UNCHANGED <<lvars, tgt, evq, ph, wheel, base, lnow, bits, tq>>
IReady == \E f \in Fds, r \in {0, 1, 2, 3} :
    /\ "fd" \in Feat /\ Op /\ rdy[f] # r /\ rdy' = [rdy EXCEPT ![f] = r]
    /\ UNCHANGED <<lvars, tgt, ep, evq, ph, wheel, base, lnow, bits, tq>>
ISetTo == \E f \in Fds, n \in {0, 1, 2} :
    /\ "to" \in Feat /\ Op /\ tgt[f].l # 0 /\ (n = 0 \/ Delta(tgt[f].l, n) < V)
    /\ SetTo(f, n, now)
    /\ LET w == WheelOff(f)  x == tgt[f].l IN
       /\ wheel' = IF n = 0 THEN w ELSE [w EXCEPT ![x][Pos(x, n)] = @ \cup {f}]
       /\ tgt' = [tgt EXCEPT ![f].idx = IF n = 0 THEN V ELSE Pos(x, n)]
    /\ UNCHANGED <<ep, rdy, evq, ph, base, lnow, bits, tq>>
ITick == /\ now < MaxClock /\ now' = now + 1 /\ \A x \in Loops : now' - base[x].time < V - 1
         /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask, ivars>>

(* timers: before the first one with the same or a later deadline *)
Insert(q, i, due, dues) == LET k == Cardinality({j \in 1..Len(q) : dues[q[j]] < due}) IN SubSeq(q, 1, k) \o <<i>> \o SubSeq(q, k + 1, Len(q))
Without(q, i) == SelectSeq(q, LAMBDA j : j # i)
Dues == [i \in Tms |-> tm[i].due]
IArm == \E x \in Loops, i \in Tms, n \in {0, 1} :
    /\ "tm" \in Feat /\ Op /\ Arm(i, x, now + n, 0, now)
    /\ tq' = [tq EXCEPT ![x] = Insert(@, i, now + n, Dues)]
    /\ UNCHANGED <<tgt, ep, rdy, evq, ph, wheel, base, lnow, bits>>
IRearm == \E i \in Tms, n \in {0, 1} :
    /\ "tm" \in Feat /\ Op /\ Rearm(i, now + n, now)
    /\ LET x == tm[i].l IN
       tq' = [tq EXCEPT ![x] = IF Variant = "norelink" /\ tm[i].due >= 0 THEN @ ELSE Insert(Without(@, i), i, now + n, Dues)]
    /\ UNCHANGED <<tgt, ep, rdy, evq, ph, wheel, base, lnow, bits>>
IClear == \E i \in Tms :
    /\ "tm" \in Feat /\ Op /\ Clear(i, now)
    /\ tq' = [tq EXCEPT ![tm[i].l] = Without(@, i)]
    /\ UNCHANGED <<tgt, ep, rdy, evq, ph, wheel, base, lnow, bits>>

-----------------------------------------------------------------------------
ITurn == \E x \in Loops : /\ ph = "idle" /\ TurnBegin(x, now) /\ ph' = "poll" /\ lnow' = [lnow EXCEPT ![x] = now]
                          /\ UNCHANGED <<tgt, ep, rdy, evq, wheel, base, bits, tq, left>>
(* the kernel reports the ready part of every interest entry *)
IPoll == /\ ph = "poll" /\ Poll(rdy, now) /\ ph' = "fds"
         /\ LET hit == {f \in Fds : ep[turn][f].on /\ (Dirs(rdy[f]) \cap Dirs(ep[turn][f].d)) # {}} IN
            evq' \in {[k \in 1..Cardinality(hit) |-> LET f == o[k] IN [f |-> f, ev |-> Dirs(rdy[f]) \cap Dirs(ep[turn][f].d), gen |-> ep[turn][f].gen]]
                      : o \in {p \in [1..Cardinality(hit) -> hit] : \A a, b \in 1..Cardinality(hit) : a # b => p[a] # p[b]}}
         /\ UNCHANGED <<tgt, ep, rdy, wheel, base, lnow, bits, tq, left>>
IFd == /\ ph = "fds" /\ evq # <<>>
       /\ LET e == Head(evq)  f == e.f  ev == IF Variant = "nomask" THEN e.ev ELSE e.ev \cap Dirs(tgt[f].d) IN
          /\ evq' = Tail(evq)
          /\ IF tgt[f].l = turn /\ tgt[f].d # 0
             THEN /\ ep' = ep
                  /\ IF (Variant # "nogen" /\ tgt[f].gen # e.gen) \/ ev = {}
                     THEN UNCHANGED lvars
                     ELSE /\ Assert(FdCbOK(f, ev, 1, reg[f].arg, rdy[f]), <<"descriptor callback", f, ev>>)
                          /\ FdCb(f, ev, 1, reg[f].arg, rdy[f], now)
             ELSE ep' = [ep EXCEPT ![turn][f] = Off] /\ UNCHANGED lvars
       /\ UNCHANGED <<tgt, rdy, ph, wheel, base, lnow, bits, tq, left>>
IFdsDone == /\ ph = "fds" /\ evq = <<>> /\ ph' = "timers"
            /\ UNCHANGED <<lvars, tgt, ep, rdy, evq, wheel, base, lnow, bits, tq, left>>
ITimer == /\ ph = "timers"
          /\ IF tq[turn] # <<>> /\ tm[Head(tq[turn])].due <= now
             THEN LET i == Head(tq[turn]) IN
                  /\ Assert(TmCbOK(i, 0, now), <<"timer", i>>)
                  /\ TmCb(i, 0, now) /\ tq' = [tq EXCEPT ![turn] = Tail(@)] /\ ph' = "timer"
             ELSE ph' = "wheel" /\ UNCHANGED <<lvars, tq>>
          /\ UNCHANGED <<tgt, ep, rdy, evq, wheel, base, lnow, bits, left>>
ITimerRet == /\ ph = "timer" /\ TmRet(curT, now) /\ ph' = "wheel"
             /\ UNCHANGED <<tgt, ep, rdy, evq, wheel, base, lnow, bits, tq, left>>
IWheel == /\ ph = "wheel"
          /\ IF base[turn].time <= lnow[turn] - 1
             THEN ph' = "step" /\ bits' = wheel[turn][base[turn].idx] /\ UNCHANGED <<lvars>>
             ELSE /\ Assert(cyc.owed = {}, "descriptor not reported") /\ Assert(LateTo(1) = {}, "timeout not delivered")
                  /\ Assert(tran.ran \/ tran.due = {}, "timer not run")
                  /\ TurnEnd(NFds(turn) + NTimers(turn), 1, now) /\ ph' = "idle" /\ UNCHANGED bits
          /\ UNCHANGED <<tgt, ep, rdy, evq, wheel, base, lnow, tq, left>>
IStep == /\ ph = "step"
         /\ IF bits = {}
            THEN /\ wheel' = [wheel EXCEPT ![turn][base[turn].idx] = {}]
                 /\ base' = [base EXCEPT ![turn] = [idx |-> (@.idx + 1) % V, time |-> @.time + 1]]
                 /\ ph' = "wheel" /\ UNCHANGED <<lvars, tgt, bits>>
            ELSE LET f == CHOOSE y \in bits : \A z \in bits : y <= z IN
                 /\ bits' = bits \ {f}
                 /\ IF Variant = "stalewheel" \/ (tgt[f].l = turn /\ tgt[f].idx = base[turn].idx)
                    THEN /\ Assert(ToCbOK(f, 1, reg[f].arg, now), <<"timeout", f>>)
                         /\ ToCb(f, 1, reg[f].arg, now) /\ tgt' = [tgt EXCEPT ![f].idx = V]
                    ELSE UNCHANGED <<lvars, tgt>>
                 /\ UNCHANGED <<wheel, base, ph>>
         /\ UNCHANGED <<ep, rdy, evq, lnow, tq, left>>

INext == IAdd \/ IDel \/ ISet \/ IReopen \/ IReady \/ ISetTo \/ ITick \/ IArm \/ IRearm \/ IClear
         \/ ITurn \/ IPoll \/ IFd \/ IFdsDone \/ ITimer \/ ITimerRet \/ IWheel \/ IStep
ISpec == IInit /\ [][INext]_<<lvars, ivars>>

-----------------------------------------------------------------------------
(* the two views agree *)
Agree == /\ \A f \in Fds : tgt[f].l = reg[f].l /\ (reg[f].l # 0 => tgt[f].d = reg[f].d)
         /\ \A f \in Fds : (tgt[f].idx # V) <=> (to[f].n # 0)
         /\ \A f \in Fds : tgt[f].l # 0 /\ tgt[f].d # 0 => ep[tgt[f].l][f] = [on |-> TRUE, d |-> tgt[f].d, gen |-> tgt[f].gen]
         /\ \A x \in Loops : {i \in Tms : tm[i].l = x /\ tm[i].due >= 0} = {tq[x][k] : k \in 1..Len(tq[x])}
Sorted == \A x \in Loops : \A a, b \in 1..Len(tq[x]) : a < b => tm[tq[x][a]].due <= tm[tq[x][b]].due
=============================================================================
