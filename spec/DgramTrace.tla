----------------------------- MODULE DgramTrace -----------------------------
EXTENDS Dgram, TraceBatch
TVars == <<dvars, tid, l>>
T_Socket == IsEv("socket") /\ Socket(Cur.s, Cur.a, Cur.i, Cur.c)
T_Aim == IsEv("aim") /\ Aim(Cur.s, Cur.a)
T_Send == IsEv("send") /\ Send(Cur.m, Cur.s, Cur.n)
T_Reply == IsEv("reply") /\ Reply(Cur.m, Cur.s, Cur.p, Cur.n)
T_Sent == IsEv("sent") /\ Sent(Cur.m, Cur.r)
T_Asked == IsEv("ask") /\ Asked(Cur.s)
T_Got == IsEv("got") /\ Got(Cur.s, Cur.m, Cur.r, Cur.n, Cur.f, Cur.p)
T_Peek == IsEv("peek") /\ Peeked(Cur.s, Cur.m, Cur.r, Cur.n)
T_Look == IsEv("look") /\ Look(Cur.p, Cur.m, Cur.r, Cur.f)
T_Handed == IsEv("over") /\ Handed(Cur.n)
T_End == IsEv("end") /\ Cur.how = "ok" /\ l > 1 /\ Ev[l - 1].e = "over" /\ UNCHANGED dvars
TInit == DInit /\ TB_Init
TNext == T_Socket \/ T_Aim \/ T_Send \/ T_Reply \/ T_Sent \/ T_Asked \/ T_Got \/ T_Peek \/ T_Look \/ T_Handed \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
