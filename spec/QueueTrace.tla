---------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, TraceBatch
TVars == <<qvars, tid, l>>
Elems(q) == {q[k] : k \in 1..Len(q)}
T_Queue == IsEv("queue") /\ Queue(Cur.j, Cur.w)
T_Run == IsEv("run") /\ Cur.args = 1 /\ Run(Cur.j, Cur.th)
T_Ret == IsEv("ret") /\ Ret(Cur.j, Cur.kind, Cur.v, Cur.x)
T_Valid == IsEv("valid") /\ Valid(Cur.j, Cur.b = 1)
T_Got == IsEv("got") /\ Got(Cur.j, Cur.kind, Cur.v, Cur.x)
T_Wait == IsEv("wait") /\ Wait(Cur.t)
T_Then == IsEv("then") /\ Then(Cur.t, Cur.v)
T_Waited == IsEv("waited") /\ Waited(Cur.t, Elems(Cur.js), Cur.then = 1)
T_Blk == IsEv("blk") /\ Cur.ok = 1 /\ UNCHANGED qvars
T_Over == IsEv("over") /\ Over
T_End == IsEv("end") /\ Cur.how = "ok" /\ Over
TInit == QInit /\ TB_Init
TNext == T_Queue \/ T_Run \/ T_Ret \/ T_Valid \/ T_Got \/ T_Wait \/ T_Then \/ T_Waited \/ T_Blk \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
