----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, TraceBatch
TVars == <<pvars, tid, l>>
T_Group == IsEv("group") /\ Group(Cur.g, Cur.by)
T_Send == IsEv("send") /\ Send(Cur.k, Cur.by, Cur.g, Cur.how)
T_Id == IsEv("id") /\ Id(Cur.k, Cur.r)
T_Run == IsEv("run") /\ Cur.args = 1 /\ Run(Cur.k, Cur.th)
T_Ret == IsEv("ret") /\ Ret(Cur.k, Cur.th, Cur.v)
T_Clean == IsEv("clean") /\ Clean(Cur.k, Cur.th)
T_Got == IsEv("got") /\ Got(Cur.k, Cur.v)
T_Wait == IsEv("wait") /\ Wait(Cur.g, Cur.n)
T_Waited == IsEv("waited") /\ Waited(Cur.g, Cur.rs)
T_Cancel == IsEv("cancel") /\ Cancel(Cur.k)
T_Cancelled == IsEv("cancelled") /\ Cancelled(Cur.k)
T_Peek == IsEv("peek") /\ Peek(Cur.k)
T_Look == IsEv("look") /\ Look(Cur.k, Cur.b = 1)
T_Side == IsEv("sideend") /\ UNCHANGED pvars
T_Over == IsEv("over") /\ Over
T_End == IsEv("end") /\ Cur.how = "ok" /\ Over
TInit == PInit /\ TB_Init
TNext == T_Group \/ T_Send \/ T_Id \/ T_Run \/ T_Ret \/ T_Clean \/ T_Got \/ T_Wait \/ T_Waited \/ T_Cancel \/ T_Cancelled \/ T_Peek \/ T_Look \/ T_Side \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
