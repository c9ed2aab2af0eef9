----------------------------- MODULE HeapTrace -----------------------------
EXTENDS Heap, TraceBatch
TVars == <<hvars, tid, l>>
IsRe(h) == h \in {"realloc", "rp_realloc", "arealloc", "grow", "nokeep"}
Al == IF Cur.how \in {"aligned", "acalloc", "arealloc", "grow", "nokeep"} /\ Cur.al > 16 THEN Cur.al ELSE 16
T_Got == /\ IsEv("got") /\ Cur.zero = 1
         /\ IF Cur.a = -2 THEN Cur.fail > 0 /\ ~IsRe(Cur.how) /\ UNCHANGED hvars
            ELSE IF IsRe(Cur.how) THEN Resized(Cur.id, Cur.a, Cur.n, Cur.us, Al, Cur.keep, Cur.good)
            ELSE New(Cur.id, Cur.a, Cur.n, Cur.us, Al)
T_Still == IsEv("still") /\ (Cur.how = "grow" \/ Cur.fail > 0) /\ Kept(Cur.id, Cur.n, Cur.good)
T_Hold == IsEv("hold") /\ Holds_(Cur.id, Cur.good)
T_Resize == IsEv("resize") /\ Resize(Cur.id)
T_Free == IsEv("free") /\ Free(Cur.id)
T_Absurd == IsEv("absurd") /\ Cur.null = 1 /\ (Cur.id >= 0 => Cur.id \in DOMAIN live /\ Cur.good = live[Cur.id].n) /\ UNCHANGED hvars
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED hvars
TInit == HInit /\ TB_Init
TNext == T_Got \/ T_Still \/ T_Hold \/ T_Resize \/ T_Free \/ T_Absurd \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
