----------------------------- MODULE WatchTrace -----------------------------
EXTENDS Watch, TraceBatch
TVars == <<par, ex, wt, q, st, tid, l>>
T_Dirs == IsEv("dirs") /\ Dirs([d \in 0 .. Len(Cur.t) - 1 |-> Cur.t[d + 1].p], [d \in 0 .. Len(Cur.t) - 1 |-> Cur.t[d + 1].x = 1])
T_Watch == IsEv("watch") /\ StartWatch(Cur.i, Cur.h, Cur.d)
T_One == IsEv("one") /\ Cur.r = 1 /\ WatchOne(Cur.i, Cur.h, Cur.d)
\* nothing to read, when all there was has been read
T_Empty == IsEv("empty") /\ Cur.again = 1 /\ (IF Cur.i \in DOMAIN q THEN Empty(Cur.i) ELSE UNCHANGED wvars)
T_Whole == IsEv("whole") /\ Cur.x = 1 /\ UNCHANGED wvars
T_Watched == IsEv("watched") /\ Cur.r = 1 /\ UNCHANGED wvars
T_Change == IsEv("change") /\ Change(Cur.op, Cur.d, Cur.n, Cur.d2, Cur.n2)
T_Report == IsEv("report") /\ Report(Cur.h, Cur.d, Cur.n, Cur.k, Cur.root)
T_Remove == IsEv("remove") /\ Cur.r = 0 /\ Remove(Cur.i, Cur.d)
T_Close == IsEv("close") /\ (IF Cur.i \in DOMAIN q THEN Close(Cur.i) ELSE UNCHANGED wvars)
T_Cancel == IsEv("cancel") /\ Cancel(Cur.i)
T_Ended == IsEv("ended") /\ Cur.r = 0 /\ Cur.x = 1 /\ Close(Cur.i)
T_Settled == IsEv("settled") /\ Settled
T_Count == IsEv("count") /\ Count(Cur.i, Cur.c, Cur.y)
\* nothing is left
T_Over == IsEv("over") /\ Cur.open = 0 /\ (\A i \in DOMAIN st : st[i] = "closed") /\ UNCHANGED wvars
T_End == IsEv("end") /\ Cur.how = "ok" /\ l > 1 /\ Ev[l - 1].e = "over" /\ UNCHANGED wvars
TInit == WInit /\ TB_Init
TNext == T_Dirs \/ T_Watch \/ T_One \/ T_Empty \/ T_Whole \/ T_Watched \/ T_Change \/ T_Report \/ T_Remove \/ T_Close \/ T_Cancel \/ T_Ended \/ T_Settled \/ T_Count \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
