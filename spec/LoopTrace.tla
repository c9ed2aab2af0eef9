----------------------------- MODULE LoopTrace -----------------------------
EXTENDS Loop, TraceBatch
TVars == <<lvars, tid, l>>
Tm == Cur.now
B(x) == x = 1

(* the library's event value: read 1, write 2, closed 5 (which includes the bit of read) *)
Closed(ev) == (ev \div 4) % 2 = 1
EvOf(f) == LET x == Cur.ev  t == Told(f, reg[f].d) IN
    IF Closed(x) THEN (IF R \in t \/ cyc.g[f] # gen[f] THEN Dirs(x) ELSE Dirs(x) \ {R}) \cup {H} ELSE Dirs(x)

T_Add == IsEv("add") /\ (IF Cur.r = 0 THEN Add(Cur.l, Cur.f, Cur.d, Cur.cb, Cur.arg, Cur.to, Tm) ELSE FALSE)
T_Del == IsEv("del") /\ Del(Cur.f, Cur.r, Tm)
T_Set == IsEv("set") /\ SetDirs(Cur.f, Cur.d, Cur.r, Tm)
T_SetCb == IsEv("scb") /\ SetCb(Cur.f, Cur.cb, Cur.arg, Tm)
T_SetTo == IsEv("sto") /\ SetTo(Cur.f, Cur.to, Tm)
T_Ask == IsEv("ask") /\ Ask(Cur.f, Cur.l, B(Cur.reg), Cur.dirs, Tm)
T_Turn == IsEv("turn") /\ TurnBegin(Cur.l, Tm)
T_Poll == IsEv("poll") /\ Poll(Cur.rdy, Tm)
T_FdCb == IsEv("cb") /\ FdCb(Cur.f, IF cyc.polled THEN EvOf(Cur.f) ELSE {}, Cur.cb, Cur.arg, Cur.rdy, Tm)
T_ToCb == IsEv("tocb") /\ ToCb(Cur.f, Cur.cb, Cur.arg, Tm)
T_TurnEnd == IsEv("turned") /\ TurnEnd(Cur.r, Cfg.res[turn], Tm)
T_Run == IsEv("run") /\ AskRunning(Cur.l, B(Cur.v), Tm)
T_Arm == IsEv("arm") /\ Arm(Cur.i, Cur.l, Tm + 10 * Cur.ms, Cur.arg, Tm)
T_Rearm == IsEv("rearm") /\ Rearm(Cur.i, Tm + 10 * Cur.ms, Tm)
T_Clear == IsEv("clear") /\ Clear(Cur.i, Tm)
T_TmCb == IsEv("tm") /\ TmCb(Cur.i, Cur.arg, Tm)
T_TmRet == IsEv("tmret") /\ TmRet(Cur.i, Tm)
T_SigAdd == IsEv("sadd") /\ SigAdd(Cur.s, Cur.l, Cur.cb, Cur.arg, Cur.r, Tm)
T_SigDel == IsEv("sdel") /\ SigDel(Cur.s, Cur.r, Tm)
T_Raise == IsEv("raise") /\ Raise(Cur.s, Tm)
T_SigCb == IsEv("sig") /\ Is("signal", Cur.ev = 255) /\ SigCb(Cur.s, Cur.cb, Cur.arg, Tm)
T_SigRet == IsEv("sigret") /\ SigRet(Cur.s, Tm)
T_Disp == IsEv("disp") /\ Disposition(Cur.s, B(Cur.h), Tm)
T_Task == IsEv("task") /\ TaskNew(Tm)
T_TEnd == IsEv("tend") /\ TaskEnd(Tm)
T_Note == IsEv("note") /\ Step(Tm) /\ UNCHANGED <<reg, gen, to, turn, t0, cyc, tm, curT, tran, sg, spend, sin, ntask>>
T_End == IsEv("end") /\ Cur.how = "ok" /\ turn = 0 /\ UNCHANGED lvars

TInit == TB_Init /\ LInit(1..Cfg.nf, 1..Cfg.ntm, 1..Cfg.ns)
TNext == T_Add \/ T_Del \/ T_Set \/ T_SetCb \/ T_SetTo \/ T_Ask \/ T_Turn \/ T_Poll \/ T_FdCb \/ T_ToCb \/ T_TurnEnd \/ T_Run \/ T_Arm
         \/ T_Rearm \/ T_Clear \/ T_TmCb \/ T_TmRet \/ T_SigAdd \/ T_SigDel \/ T_Raise \/ T_SigCb \/ T_SigRet \/ T_Disp \/ T_Task
         \/ T_TEnd \/ T_Note \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
