----------------------------- MODULE LockTrace -----------------------------
EXTENDS Lock, TraceBatch
TVars == <<lvars, tid, l>>
T_Run == IsEv("run") /\ holder' = [k \in 0..2 |-> None] /\ data' = [k \in 0..2 |-> 0] /\ late' = [k \in 0..2 |-> None]
                     /\ pend' = [t \in 0..4 |-> [k |-> None, seen |-> FALSE]]
T_Ask == IsEv("ask") /\ Ask(Cur.t, Cur.k)
T_Get == IsEv("get") /\ Get(Cur.t, Cur.k)
T_Ref == IsEv("refused") /\ Refused(Cur.t, Cur.k)
T_Rd == IsEv("read") /\ Read(Cur.t, Cur.k, Cur.v)
T_Wr == IsEv("write") /\ Write(Cur.t, Cur.k, Cur.v)
T_Drop == IsEv("drop") /\ Drop(Cur.t, Cur.k)
T_Sum == IsEv("sum") /\ Cur.got = Cur.want /\ UNCHANGED lvars
T_Over == IsEv("over") /\ Cur.stuck = 0 /\ AllFree
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED lvars
TInit == LInit(0..2, 0..4) /\ TB_Init
TNext == T_Run \/ T_Ask \/ T_Get \/ T_Ref \/ T_Rd \/ T_Wr \/ T_Drop \/ T_Sum \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
