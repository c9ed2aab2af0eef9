---------------------------- MODULE VectorTrace ----------------------------
EXTENDS Vector, TraceBatch
TVars == <<vars, tid, l>>

SizeIs(h) == Cur.size = Len(seq'[h])
CapIs(h)  == Cur.cap >= Len(seq'[h])
CapSet(h) == cap' = [cap EXCEPT ![h] = Cur.cap]      \* resolves the capacity choice
ThrownIs == Cur.thrown = (IF thrown' THEN 1 ELSE 0)

TraceCaps == IF l <= Len(Ev) /\ "cap" \in DOMAIN Cur THEN {Cur.cap} ELSE {}

RECURSIVE RangeSeq(_, _, _)
RangeSeq(a, b, s) == IF a >= b THEN <<>> ELSE <<a>> \o RangeSeq(a + s, b, s)

Free(h) == UNCHANGED <<live, frozen, seq, thrown>> /\ live[h]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* a fresh handle has an unknown capacity until the "check" that follows it *)
T_New == IsEv("new") /\ LET h == Cur.h IN
           /\ ~live[h]
           /\ live' = [live EXCEPT ![h] = TRUE] /\ frozen' = [frozen EXCEPT ![h] = FALSE]
           /\ seq' = [seq EXCEPT ![h] = Cur.list] /\ cap' = [cap EXCEPT ![h] = Len(Cur.list)]
           /\ thrown' = FALSE
T_Range == IsEv("range") /\ LET h == Cur.h IN
           /\ ~live[h]
           /\ live' = [live EXCEPT ![h] = TRUE] /\ frozen' = [frozen EXCEPT ![h] = FALSE]
           /\ LET s == RangeSeq(Cur.start, Cur.stop, Cur.step) IN
                seq' = [seq EXCEPT ![h] = s] /\ cap' = [cap EXCEPT ![h] = Len(s)]
           /\ thrown' = FALSE
T_Copy == IsEv("copy") /\ LET h == Cur.h  g == Cur.from IN
           /\ ~live[h] /\ live[g]
           /\ live' = [live EXCEPT ![h] = TRUE] /\ frozen' = [frozen EXCEPT ![h] = frozen[g]]
           /\ seq' = [seq EXCEPT ![h] = seq[g]] /\ cap' = [cap EXCEPT ![h] = Len(seq[g])]
           /\ thrown' = FALSE
T_Append == IsEv("append") /\ Append1(Cur.h, Cur.v) /\ SizeIs(Cur.h) /\ CapIs(Cur.h) /\ ThrownIs
T_Remove == IsEv("remove") /\ Remove(Cur.h, Cur.i) /\ SizeIs(Cur.h) /\ ThrownIs
T_Pop == IsEv("pop") /\ Pop(Cur.h) /\ SizeIs(Cur.h) /\ ThrownIs
         /\ Cur.r = (IF thrown' \/ seq[Cur.h] = <<>> THEN 0 ELSE seq[Cur.h][Len(seq[Cur.h])])
T_Shift == IsEv("shift") /\ Shift(Cur.h) /\ SizeIs(Cur.h) /\ ThrownIs
         /\ Cur.r = (IF thrown' \/ seq[Cur.h] = <<>> THEN 0 ELSE Head(seq[Cur.h]))
T_Reset == IsEv("reset") /\ Reset(Cur.h) /\ SizeIs(Cur.h) /\ ThrownIs
T_Freeze == IsEv("freeze") /\ Freeze(Cur.h) /\ SizeIs(Cur.h)
T_Reserve == IsEv("reserve") /\ Reserve(Cur.h, Cur.n) /\ SizeIs(Cur.h) /\ CapIs(Cur.h) /\ Cur.cap >= Cur.n
T_Store == IsEv("store") /\ Store(Cur.h, Cur.i, Cur.v)
T_Sorted == IsEv("sorted") /\ Sort(Cur.h, Cur.list) /\ SizeIs(Cur.h)
T_Check == IsEv("check") /\ Free(Cur.h) /\ Cur.list = seq[Cur.h] /\ SizeIs(Cur.h) /\ CapIs(Cur.h)
             /\ (cap[Cur.h] <= Cur.cap) /\ CapSet(Cur.h)
T_Iter == IsEv("iter") /\ Free(Cur.h) /\ Cur.list = seq[Cur.h] /\ UNCHANGED cap
T_IterBack == IsEv("iterback") /\ Free(Cur.h) /\ Cur.list = Rev(seq[Cur.h]) /\ UNCHANGED cap
T_Drop == IsEv("drop") /\ Drop(Cur.h)
T_End == IsEv("end") /\ Cur.how = "ok" /\ UNCHANGED vars

TInit == Init /\ TB_Init
TNext == T_New \/ T_Range \/ T_Copy \/ T_Append \/ T_Remove \/ T_Pop \/ T_Shift \/ T_Reset \/ T_Freeze
         \/ T_Reserve \/ T_Store \/ T_Sorted \/ T_Check \/ T_Iter \/ T_IterBack \/ T_Drop \/ T_End
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
