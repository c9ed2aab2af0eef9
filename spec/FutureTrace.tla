---------------------------- MODULE FutureTrace ----------------------------
EXTENDS Future, TraceBatch
TVars == <<fvars, tid, l>>
T_Start == IsEv("start") /\ Start(Cur.f)
T_Run == IsEv("run") /\ Cur.args = 1 /\ Run(Cur.f)
T_Ret == IsEv("ret") /\ Ret(Cur.f, Cur.kind, Cur.v, Cur.x)
T_Done == IsEv("done") /\ Done(Cur.f, Cur.b = 1)
T_Got == IsEv("got") /\ Got(Cur.f, Cur.kind, Cur.v, Cur.x)
T_Set == IsEv("tset") /\ Set(Cur.t, Cur.var, Cur.v)
T_Get == IsEv("tget") /\ Get(Cur.t, Cur.var, Cur.v)
T_Blk == IsEv("blk") /\ Cur.ok = 1 /\ UNCHANGED fvars
T_End == IsEv("end") /\ Cur.how = "ok" /\ AllEnded /\ UNCHANGED fvars
TInit == FInit /\ TB_Init
TNext == T_Start \/ T_Run \/ T_Ret \/ T_Done \/ T_Got \/ T_Set \/ T_Get \/ T_Blk \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
