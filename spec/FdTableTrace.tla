--------------------------- MODULE FdTableTrace ---------------------------
EXTENDS FdTable, TraceBatch
TVars == <<tab, tid, l>>
B(x) == IF x THEN 1 ELSE 0
T_Run == IsEv("run") /\ tab' = [p \in 0..(N - 1) |-> Free]
T_New == IsEv("new") /\ IF Cur.p >= 0 THEN NewAs(Cur.t, Cur.p, Cur.type, Cur.want, Cur.alone = 1)
                        ELSE Cur.p = -1 /\ Cur.err = 1 /\ NewRefused
T_Assign == IsEv("assign") /\ Cur.r = 1 /\ Assign(Cur.p, Cur.h)
T_Look == IsEv("look") /\ Cur.valid = B(Valid(Cur.p)) /\ Cur.get = Maps(Cur.p) /\ UNCHANGED tab
\* from this moment the number may be handed out again
T_Close == IsEv("close") /\ Close(Cur.t, Cur.p)
T_Closed == IsEv("closed") /\ Closed(Cur.p)
\* is the object behind a handle still open?
T_Open == IsEv("open") /\ Cur.is = Cur.want /\ UNCHANGED tab
T_Over == IsEv("over") /\ Cur.bad = 0 /\ Cur.stuck = 0 /\ UNCHANGED tab
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED tab
TInit == FInit /\ TB_Init
TNext == T_Run \/ T_New \/ T_Assign \/ T_Look \/ T_Close \/ T_Closed \/ T_Open \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
