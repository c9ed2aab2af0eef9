------------------------------ MODULE FsTrace ------------------------------
EXTENDS Fs, TraceBatch
TVars == <<fvars, tid, l>>
T_Call == IsEv("call") /\ Call(Cur.t, Cur.q)
T_Ret == IsEv("ret") /\ Ret(Cur.t, Cur.r, Cur.x, Cur.d)
\* what the system call answered is what is told
T_Big == IsEv("big") /\ Cur.r = Cur.k /\ Cur.k > 0 /\ UNCHANGED fvars
\* somebody cuts a file
T_Cut == IsEv("cut") /\ ino' = [ino EXCEPT ![At(Cur.p).i].data = SubSeq(@, 1, Cur.n)] /\ UNCHANGED <<des, fd, pend>>
T_Final == IsEv("final") /\ Final({<<Cur.t[k].p, Cur.t[k].k, Cur.t[k].m, Cur.t[k].b>> : k \in 1..Len(Cur.t)})
T_End == IsEv("end") /\ Cur.how = "ok" /\ pend = << >> /\ UNCHANGED fvars
\* the answer task t is going to get
RECURSIVE RetAt(_, _)
RetAt(t, k) == IF k > Len(Ev) THEN 0 ELSE IF Ev[k].e = "ret" /\ Ev[k].t = t THEN k ELSE RetAt(t, k + 1)
Fits(p, v) == IF p.r = NewFd THEN v.r >= 0 ELSE v.r = p.r /\ v.d = p.d /\ (IF v.r < 0 /\ p.e # 0 THEN v.x = p.e ELSE TRUE)
\* effects matter only before an answer, and only those that give the answers told
T_Effect == /\ More /\ Cur.e \in {"ret", "final"} /\ UNCHANGED <<tid, l>> /\ (Cur.e = "ret" => ~pend[Cur.t].done) /\ \E t \in DOMAIN pend : Effect(t) /\ LET k == RetAt(t, l) IN IF k = 0 THEN TRUE ELSE Fits(pend'[t], Ev[k])
TInit == FInit /\ TB_Init
TNext == T_Call \/ T_Ret \/ T_Big \/ T_Cut \/ T_Final \/ T_End \/ T_Effect
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
