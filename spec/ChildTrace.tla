----------------------------- MODULE ChildTrace -----------------------------
EXTENDS Child, TraceBatch
TVars == <<kid, short, tid, l>>
T_Spawn == IsEv("spawn") /\ Spawn(Cur.c, Cur.total, Cur.r, Cur.g, Cur.k)
T_Spawned == IsEv("spawned") /\ Spawned(Cur.c, Cur.r)
T_Out == IsEv("out") /\ Out(Cur.c, Cur.n, Cur.ok)
T_Exit == IsEv("exit") /\ Exit(Cur.c, Cur.r, Cur.g, Cur.alive)
T_Finish == IsEv("finish") /\ Finish(Cur.c, Cur.r)
T_Not == IsEv("wait") /\ Not(Cur.c, Cur.x)
T_Over == IsEv("over") /\ Over(Cur.open)
T_NoFork == IsEv("nofork") /\ NoProcess
T_End == IsEv("end") /\ Cur.how = "ok" /\ l > 1 /\ Ev[l - 1].e = "over" /\ UNCHANGED <<kid, short>>
TInit == CInit /\ TB_Init
TNext == T_NoFork \/ T_Spawn \/ T_Spawned \/ T_Out \/ T_Exit \/ T_Finish \/ T_Not \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
