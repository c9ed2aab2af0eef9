---------------------------- MODULE DequeTrace ----------------------------
(* Each trace holds the distinct histories of one program, one "run" each.  *)
EXTENDS Deque, TraceBatch
TVars == <<dvars, tid, l>>
T_Run == IsEv("run") /\ q' = <<>> /\ out' = <<>> /\ pend' = [t \in 0..3 |-> Idle]
T_Call == IsEv("call") /\ Call(Cur.t, Cur.op, Cur.v)
T_Ret == IsEv("ret") /\ Ret(Cur.t, Cur.op, Cur.v)
T_Join == IsEv("join") /\ Join
T_Over == IsEv("over") /\ Cur.bad = 0 /\ Cur.stuck = 0 /\ q = <<>> /\ Join
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED dvars
\* effects matter only before an answer
Effect == /\ More /\ Cur.e \in {"ret", "join"} /\ UNCHANGED <<tid, l>>
          /\ \/ Show
             \/ \E t \in DOMAIN pend : Steal(t) \/ Take(t) \/ Nothing(t)
TInit == DInit(0..3) /\ TB_Init
TNext == T_Run \/ T_Call \/ T_Ret \/ T_Join \/ T_Over \/ T_End \/ Effect
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
