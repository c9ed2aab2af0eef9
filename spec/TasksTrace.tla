---------------------------- MODULE TasksTrace ----------------------------
EXTENDS Tasks, TraceBatch
TVars == <<tvars, tid, l>>
(* On: aspects checked in this run; "local" adds arguments and locals of tasks *)
Is(a, cond) == Holds(a \in On => cond)
Tm == Cur.now
Ok == Is("local", Cur.ok = 1)

T_Create == IsEv("create") /\ Create(Cur.t, Cur.c, Cur.soft = 1, Tm)
T_Made == IsEv("made") /\ Made(Cur.c, Cur.id, Tm)
T_Start == IsEv("start") /\ Is("local", Cur.a = Cur.t /\ Cur.b = Cur.t * 7 + task[Cur.t].parent)
           /\ Start(Cur.t, Cur.rid, Tm)
T_Yield == IsEv("yield") /\ Yield(Cur.t, Tm)
T_Resume == IsEv("resume") /\ Ok /\ Resume(Cur.t, Tm)
T_Sleep == IsEv("sleep") /\ Sleep(Cur.t, 10 * Cur.ms, Tm)
T_Wake == IsEv("wake") /\ Ok /\ Wake(Cur.t, Tm)
          /\ Is("sleep", LET d == Tm - task[Cur.t].due IN    \* reported delay: whole ms between request and now
                 LET elapsed == d + task[Cur.t].dur IN 10 * Cur.ret >= task[Cur.t].dur /\ 10 * Cur.ret <= elapsed)
T_Await == IsEv("await") /\ Await(Cur.t, Cur.c, Tm)
T_Got == IsEv("got") /\ Ok /\ Got(Cur.t, Cur.v, Tm)
T_Peek == IsEv("peek") /\ Look(Cur.t, Tm)
          /\ Is("await", IF task[Cur.c].st = "done" THEN Cur.ready = 1 /\ Cur.v = task[Cur.c].res ELSE Cur.ready = 0 /\ Cur.v = 0)
T_Cancel == IsEv("cancel") /\ Cancel(Cur.t, Cur.c, Tm)
T_Cancelled == IsEv("cancelled") /\ Look(Cur.t, Tm)
          /\ Is("await", Cur.v = (IF task[Cur.t].canc THEN 1 ELSE 0) /\ (task[Cur.t].rid >= 0 => Cur.id = task[Cur.t].rid))
T_Group == IsEv("group") /\ Group(Cur.t, Tm)
T_GWait == IsEv("gwait") /\ GroupWait(Cur.t, Tm)
T_GDone == IsEv("gdone") /\ Ok /\ GroupDone(Cur.t, Tm)
          /\ Is("group", LET with == {m \in task[Cur.t].members : task[m].res # 0} IN
                 /\ Len(Cur.ids) = Cardinality(with)
                 /\ \A m \in with : \E i \in 1..Len(Cur.ids) : Cur.ids[i] = task[m].rid /\ Cur.vals[i] = task[m].res)
T_Next == IsEv("next") /\ Next1(Cur.t, Cur.g, Tm)
T_Value == IsEv("value") /\ Ok /\ Value(Cur.t, Cur.v, Tm)
          /\ Is("gen", Cur.v = 0 \/ Cur.gid = task[task[Cur.t].tgt].rid)
T_Give == IsEv("give") /\ Give(Cur.t, Cur.v, Tm)
T_Gave == IsEv("gave") /\ Ok /\ Gave(Cur.t, Tm)
T_FdWait == IsEv("fdwait") /\ FdWait(Cur.t, Tm)
T_FdReady == IsEv("fdready") /\ Ok /\ FdReady(Cur.t, Tm)
T_Feed == IsEv("feed") /\ Feed(Cur.t, Cur.c, Tm)
T_Finish == IsEv("finish") /\ Ok /\ Finish(Cur.t, Cur.v, Tm)
T_Ran == IsEv("ran") /\ AllDone /\ cur = 0 /\ UNCHANGED tvars
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED tvars

TInit == Init /\ TB_Init
TNext == T_Create \/ T_Made \/ T_Start \/ T_Yield \/ T_Resume \/ T_Sleep \/ T_Wake \/ T_Await \/ T_Got \/ T_Peek \/ T_Cancel
         \/ T_Cancelled \/ T_Group \/ T_GWait \/ T_GDone \/ T_Next \/ T_Value \/ T_Give \/ T_Gave \/ T_FdWait \/ T_FdReady \/ T_Feed
         \/ T_Finish \/ T_Ran \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
