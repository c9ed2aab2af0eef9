----------------------------- MODULE ExceptTrace -----------------------------
EXTENDS Except, TraceBatch
TVars == <<evars, tid, l>>
T == Cur.t
B(x) == x = 1
(* the main program starts by itself *)
T_Start == IsEv("start") /\ Start(T)
T_Try == IsEv("try") /\ Try(T, Cur.id, Cur.h, B(Cur.fin))
T_BodyEnd == IsEv("bodyend") /\ BodyEnd(T, Cur.id)
T_Throw == IsEv("throw") /\ Throw(T, Cur.x)
T_Rethrow == IsEv("rethrow") /\ Rethrow(T, Cur.id)
T_Catch == IsEv("catch") /\ Catch(T, Cur.id, Cur.i, Cur.x)
T_If == IsEv("if") /\ IfRes(T, Cur.id, Cur.x, B(Cur.r))
T_Msg == IsEv("msg") /\ Msg(T, Cur.id, Cur.x)
T_CatchEnd == IsEv("catchend") /\ CatchEnd(T, Cur.id)
T_Fin == IsEv("fin") /\ Fin(T, Cur.id)
T_FinEnd == IsEv("finend") /\ FinEnd(T, Cur.id)
T_After == IsEv("after") /\ After(T, Cur.id)
T_Guard == IsEv("guard") /\ Guard(T, Cur.id)
T_Defer == IsEv("defer") /\ Defer(T, Cur.id)
T_Clean == IsEv("clean") /\ Clean(T, Cur.id)
T_Recover == IsEv("recover") /\ Recover(T, Cur.x, B(Cur.r))
T_Prot == IsEv("prot") /\ Prot(T, Cur.id, Cur.v)
T_PSet == IsEv("pset") /\ PSet(T, Cur.id, Cur.v)
T_Unprot == IsEv("unprot") /\ Unprot(T, Cur.id)
T_Rel == IsEv("rel") /\ Rel(T, Cur.v)
T_Plain == (IsEv("step") \/ IsEv("yield") \/ IsEv("resume")) /\ Plain(T)
T_Finish == IsEv("finish") /\ Finish(T)
T_Ran == IsEv("ran") /\ AllEnded /\ UNCHANGED evars
T_End == /\ IsEv("end")
         /\ IF \E t \in DOMAIN mode : Uncaught(t) THEN Cur.how = "exit" /\ Cur.code # 0 ELSE Cur.how = "ok" /\ AllEnded
         /\ UNCHANGED evars
TInit == TB_Init /\ EInit(0..Cfg.nt)
TNext == T_Start \/ T_Try \/ T_BodyEnd \/ T_Throw \/ T_Rethrow \/ T_Catch \/ T_If \/ T_Msg \/ T_CatchEnd \/ T_Fin \/ T_FinEnd \/ T_After \/ T_Guard
         \/ T_Defer \/ T_Clean \/ T_Recover \/ T_Prot \/ T_PSet \/ T_Unprot \/ T_Rel \/ T_Plain \/ T_Finish \/ T_Ran \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
