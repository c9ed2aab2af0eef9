---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, TraceBatch
TVars == <<svars, tid, l>>
T_Link == IsEv("link") /\ Linked(Cur.a, Cur.b)
T_Connecting == IsEv("connecting") /\ Connecting(Cur.a, Cur.s)
T_Connected == IsEv("connected") /\ Connected(Cur.a, Cur.p)
T_Refused == IsEv("refused") /\ Refused(Cur.a)
T_Accepted == IsEv("accepted") /\ Accepted(Cur.a, Cur.s, Cur.p)
T_WCall == IsEv("wcall") /\ WCall(Cur.a, Cur.n)
T_WRet == IsEv("wret") /\ WRet(Cur.a, Cur.r)
T_RCall == IsEv("rcall") /\ RCall(Cur.a, Cur.n)
T_RRet == IsEv("rret") /\ RRet(Cur.a, Cur.r, Cur.d)
T_Shut == IsEv("shut") /\ Shut(Cur.a)
T_Close == IsEv("close") /\ Close(Cur.a)
T_Odd == IsEv("odd") /\ Odd(Cur.k, Cur.r, Cur.n)
T_Over == IsEv("over") /\ Over
T_End == IsEv("end") /\ Cur.how = "ok" /\ l > 1 /\ Ev[l - 1].e = "over" /\ UNCHANGED svars
TInit == SInit /\ TB_Init
TNext == T_Link \/ T_Connecting \/ T_Connected \/ T_Refused \/ T_Accepted \/ T_WCall \/ T_WRet \/ T_RCall \/ T_RRet \/ T_Shut \/ T_Close \/ T_Odd \/ T_Over \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
