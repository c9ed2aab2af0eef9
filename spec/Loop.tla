-------------------------------- MODULE Loop --------------------------------
(* The contract of the event loops of one thread: descriptors, their timeouts, timers, signals, and the count of *)
(* pending work (C01..C05).  Time is in units (100 us); U units make a second.  A turn takes a snapshot of the    *)
(* readiness of all descriptors ("poll"), then runs callbacks, which may call every operation again.              *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC

CONSTANTS U,          \* units per second
          On          \* aspects demanded: subset of {"fd", "timeout", "timer", "alive", "signal"}

Holds(x) == IF x THEN TRUE ELSE FALSE
Is(a, cond) == Holds(a \in On => cond)

R == 1  W == 2  H == 4            \* directions; hang-up
Dirs(x) == {d \in {R, W} : IF d = R THEN x % 2 = 1 ELSE (x \div 2) % 2 = 1}
Hup(x) == (x \div 4) % 2 = 1

VARIABLES reg,      \* slot -> [l, d, cb, arg]; l = 0: not registered
          gen,      \* slot -> number of registrations so far
          to,       \* slot -> [at, n]: armed at time at for n seconds (n = 0: not armed)
          turn,     \* loop being turned, 0 outside turns
          t0,       \* time at the start of the turn
          cyc,      \* [polled, ready, g, d, owed, may]: snapshot, generations and directions then, slots with a callback due, slots that may get one
          tm,       \* timer -> [l, due, arg]; l = 0: none.  due = -1: not armed
          curT,     \* timer whose function runs, 0 none
          tran,     \* [ran, due]: a timer ran in this turn; timers due since its start
          sg,       \* signal -> [l, cb, arg]; l = 0 none
          spend,    \* signals delivered but not handled yet
          sin,      \* signal being handled, 0 none
          ntask,    \* unfinished tasks
          now
lvars == <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask, now>>

NoReg == [l |-> 0, d |-> 0, cb |-> 0, arg |-> 0]
NoTo == [at |-> 0, n |-> 0]
NoTm == [l |-> 0, due |-> -1, arg |-> 0]
NoCyc == [polled |-> FALSE, ready |-> <<>>, g |-> <<>>, d |-> <<>>, owed |-> {}, may |-> {}]
NoSg == [l |-> 0, cb |-> 0, arg |-> 0]

LInit(slots, timers, signals) ==
    /\ reg = [f \in slots |-> NoReg] /\ gen = [f \in slots |-> 0] /\ to = [f \in slots |-> NoTo]
    /\ turn = 0 /\ t0 = 0 /\ cyc = NoCyc
    /\ tm = [i \in timers |-> NoTm] /\ curT = 0 /\ tran = [ran |-> FALSE, due |-> {}]
    /\ sg = [s \in signals |-> NoSg] /\ spend = {} /\ sin = 0
    /\ ntask = 0 /\ now = 0

(* no handled signal may be left waiting once the program goes on *)
Flow == Is("signal", spend = {} \/ sin # 0)
Step(t) == Flow /\ now' = t /\ Holds(t >= now)

-----------------------------------------------------------------------------
(* descriptors *)
Registered(f) == reg[f].l # 0

(* adding again replaces the registration *)
Add(l, f, d, cb, arg, n, t) ==
    /\ Step(t)
    /\ reg' = [reg EXCEPT ![f] = [l |-> l, d |-> d, cb |-> cb, arg |-> arg]]
    /\ gen' = [gen EXCEPT ![f] = @ + 1]
    /\ to' = [to EXCEPT ![f] = IF n = 0 THEN NoTo ELSE [at |-> t, n |-> n]]
    /\ cyc' = [cyc EXCEPT !.owed = @ \ {f}]
    /\ UNCHANGED <<turn, t0, tm, curT, tran, sg, spend, sin, ntask>>

Del(f, r, t) ==
    /\ Step(t)
    /\ Is("fd", (r = 0) <=> Registered(f))
    /\ reg' = [reg EXCEPT ![f] = NoReg] /\ to' = [to EXCEPT ![f] = NoTo]
    /\ cyc' = [cyc EXCEPT !.owed = @ \ {f}]
    /\ UNCHANGED <<gen, turn, t0, tm, curT, tran, sg, spend, sin, ntask>>

(* what a callback for f would be told, from the snapshot; if the directions were changed in this turn, the new ones *)
(* may count already, and only those kept have to *)
Told(f, d) == (Dirs(cyc.ready[f]) \cap Dirs(d)) \cup (IF d # 0 /\ Hup(cyc.ready[f]) THEN {H} ELSE {})
Must(f, d) == (Told(f, d) \cap Dirs(cyc.d[f])) \cup (Told(f, d) \cap {H})

SetDirs(f, d, r, t) ==
    /\ Step(t)
    /\ Is("fd", r = 0)
    /\ reg' = [reg EXCEPT ![f].d = d]
    /\ cyc' = IF f \in cyc.owed /\ Must(f, d) = {} THEN [cyc EXCEPT !.owed = @ \ {f}] ELSE cyc
    /\ UNCHANGED <<gen, to, turn, t0, tm, curT, tran, sg, spend, sin, ntask>>

SetCb(f, cb, arg, t) ==
    /\ Step(t)
    /\ reg' = [reg EXCEPT ![f].cb = cb, ![f].arg = arg]
    /\ UNCHANGED <<gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

SetTo(f, n, t) ==
    /\ Step(t)
    /\ to' = [to EXCEPT ![f] = IF n = 0 \/ ~Registered(f) THEN NoTo ELSE [at |-> t, n |-> n]]
    /\ UNCHANGED <<reg, gen, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

(* what the loop says about a descriptor *)
Ask(f, l, isreg, dirs, t) ==
    /\ Step(t)
    /\ Is("fd", /\ isreg = (IF l = 0 THEN Registered(f) ELSE reg[f].l = l)
                /\ Registered(f) => Dirs(dirs) = Dirs(reg[f].d))
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

-----------------------------------------------------------------------------
(* turns *)
TurnBegin(l, t) ==
    /\ Step(t) /\ turn = 0
    /\ turn' = l /\ t0' = t /\ tran' = [ran |-> FALSE, due |-> {i \in DOMAIN tm : tm[i].l = l /\ tm[i].due >= 0 /\ tm[i].due <= t}] /\ cyc' = NoCyc
    /\ UNCHANGED <<reg, gen, to, tm, curT, sg, spend, sin, ntask>>

Poll(ready, t) ==
    /\ Step(t) /\ turn # 0
    /\ LET told(f) == reg[f].l = turn /\ reg[f].d # 0 /\ ((Dirs(ready[f]) \cap Dirs(reg[f].d)) # {} \/ Hup(ready[f]))
       IN cyc' = [polled |-> TRUE, ready |-> ready, g |-> gen, d |-> [f \in DOMAIN reg |-> reg[f].d], owed |-> {f \in DOMAIN reg : told(f)},
                                                               may |-> {f \in DOMAIN reg : told(f)}]
    /\ UNCHANGED <<reg, gen, to, turn, t0, tm, curT, tran, sg, spend, sin, ntask>>

(* ev: subset of {R, W, H}; rdy: readiness at the moment of the callback *)
FdCbOK(f, ev, cb, arg, rdy) ==
    /\ turn # 0 /\ reg[f].l = turn
    /\ cb = reg[f].cb /\ arg = reg[f].arg
    /\ cyc.polled
    /\ IF gen[f] = cyc.g[f]
       THEN f \in cyc.may /\ ev # {} /\ ev \subseteq Told(f, reg[f].d) /\ Must(f, reg[f].d) \subseteq ev
       ELSE (* registered anew in this turn: due next turn, unless it is ready anyway *)
            ev # {} /\ ev \subseteq ((Dirs(rdy) \cap Dirs(reg[f].d)) \cup (IF Hup(rdy) THEN {H} ELSE {}))
FdCb(f, ev, cb, arg, rdy, t) ==
    /\ Step(t)
    /\ Is("fd", FdCbOK(f, ev, cb, arg, rdy))
    /\ cyc' = [cyc EXCEPT !.owed = @ \ {f}, !.may = @ \ {f}]
    /\ UNCHANGED <<reg, gen, to, turn, t0, tm, curT, tran, sg, spend, sin, ntask>>

ToCbOK(f, cb, arg, t) ==
    /\ turn # 0 /\ reg[f].l = turn /\ cb = reg[f].cb /\ arg = reg[f].arg
    /\ to[f].n # 0 /\ t >= to[f].at + to[f].n * U
ToCb(f, cb, arg, t) ==
    /\ Step(t)
    /\ Is("timeout", ToCbOK(f, cb, arg, t))
    /\ to' = [to EXCEPT ![f] = NoTo]
    /\ UNCHANGED <<reg, gen, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

NFds(l) == Cardinality({f \in DOMAIN reg : reg[f].l = l})
NTimers(l) == Cardinality({i \in DOMAIN tm : tm[i].l = l})
NSignals(l) == Cardinality({s \in DOMAIN sg : sg[s].l = l})
Running(l) == NFds(l) + NTimers(l) + NSignals(l) + ntask > 0

(* res: resolution of the timeouts in seconds *)
LateTo(res) == {f \in DOMAIN to : reg[f].l = turn /\ to[f].n # 0 /\ t0 >= to[f].at + (to[f].n + res) * U}
TurnEnd(r, res, t) ==
    /\ Step(t) /\ turn # 0
    /\ Is("fd", cyc.owed = {})
    /\ Is("timeout", LateTo(res) = {})
    /\ Is("timer", tran.ran \/ tran.due = {})
    /\ Is("alive", r = NFds(turn) + NTimers(turn))
    /\ turn' = 0 /\ cyc' = NoCyc
    /\ UNCHANGED <<reg, gen, to, t0, tm, curT, tran, sg, spend, sin, ntask>>

AskRunning(l, v, t) ==
    /\ Step(t)
    /\ Is("alive", v = Running(l))
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

-----------------------------------------------------------------------------
(* timers; a timer counts until it is cleared or its function returned without arming it again *)
Arm(i, l, due, arg, t) ==
    /\ Step(t) /\ tm[i].l = 0
    /\ tm' = [tm EXCEPT ![i] = [l |-> l, due |-> due, arg |-> arg]]
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, curT, tran, sg, spend, sin, ntask>>
Rearm(i, due, t) ==
    /\ Step(t) /\ tm[i].l # 0
    /\ tm' = [tm EXCEPT ![i].due = due] /\ tran' = [tran EXCEPT !.due = @ \ {i}]
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, curT, sg, spend, sin, ntask>>
Clear(i, t) ==
    /\ Step(t) /\ tm[i].l # 0
    /\ tm' = [tm EXCEPT ![i] = IF curT = i THEN [@ EXCEPT !.due = -1] ELSE NoTm]
    /\ tran' = [tran EXCEPT !.due = @ \ {i}]
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, curT, sg, spend, sin, ntask>>
TmCbOK(i, arg, t) ==
    /\ turn # 0 /\ tm[i].l = turn /\ tm[i].due >= 0 /\ curT = 0
    /\ t >= tm[i].due /\ arg = tm[i].arg
    /\ \A j \in DOMAIN tm : tm[j].l = turn /\ tm[j].due >= 0 => tm[j].due >= tm[i].due
TmCb(i, arg, t) ==
    /\ Step(t)
    /\ Is("timer", TmCbOK(i, arg, t))
    /\ tm' = [tm EXCEPT ![i].due = -1]
    /\ curT' = i /\ tran' = [tran EXCEPT !.ran = TRUE]
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, sg, spend, sin, ntask>>
TmRet(i, t) ==
    /\ Step(t) /\ curT = i
    /\ tm' = [tm EXCEPT ![i] = IF @.due < 0 THEN NoTm ELSE @]
    /\ curT' = 0
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tran, sg, spend, sin, ntask>>

-----------------------------------------------------------------------------
(* signals *)
SigAdd(s, l, cb, arg, r, t) ==
    /\ Step(t)
    /\ Is("signal", r = 0 \/ sg[s].l # 0)          \* only a second registration may be refused
    /\ sg' = IF r = 0 THEN [sg EXCEPT ![s] = [l |-> l, cb |-> cb, arg |-> arg]] ELSE sg
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, spend, sin, ntask>>
SigDel(s, r, t) ==
    /\ Step(t)
    /\ Is("signal", (r = 0) <=> sg[s].l # 0)
    /\ sg' = [sg EXCEPT ![s] = NoSg]
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, spend, sin, ntask>>
Raise(s, t) ==
    /\ Step(t)
    /\ spend' = IF sg[s].l # 0 THEN spend \cup {s} ELSE spend
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, sin, ntask>>
SigCb(s, cb, arg, t) ==
    /\ Holds(t >= now) /\ now' = t
    /\ Is("signal", /\ s \in spend /\ sin = 0 /\ cb = sg[s].cb /\ arg = sg[s].arg)
    /\ spend' = spend \ {s} /\ sin' = s
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, ntask>>
SigRet(s, t) ==
    /\ Holds(t >= now) /\ now' = t
    /\ Is("signal", sin = s)
    /\ sin' = 0
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, ntask>>
(* h: TRUE when the library's handler is installed, FALSE when the default handling is in force *)
Disposition(s, h, t) ==
    /\ Step(t)
    /\ Is("signal", h = (sg[s].l # 0))
    /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>

-----------------------------------------------------------------------------
(* tasks matter here only as pending work *)
TaskNew(t) == Step(t) /\ ntask' = ntask + 1 /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin>>
TaskEnd(t) == Step(t) /\ ntask' = ntask - 1 /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin>>

LoopOK == /\ ntask >= 0
          /\ \A f \in DOMAIN reg : to[f].n # 0 => Registered(f)
          /\ \A f \in cyc.owed : reg[f].l = turn
          /\ curT # 0 => tm[curT].l # 0
          /\ \A s \in spend : sg[s].l # 0 \/ sin # 0
=============================================================================
