----------------------------- MODULE DequeImpl -----------------------------
(* src/deque.c step by step: one transition per shared memory access, the    *)
(* owner's relaxed stores going through a FIFO store buffer (x86-TSO).       *)
(* gq is the abstract queue of Deque.tla; err names the first departure.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thieves, MaxPush, MaxTake, MaxSteal, Size0,
          First,        \* initial index: 1, or 0 (wraps around below zero)
          TopEarly,     \* take reads top before lowering bottom
          Fence,        \* take has its full fence
          FreeOld       \* growing frees the old array at once
VARIABLES top, bottom, arr, mem, freed, sb, opc, ob, ot, oa, spc, st, sa, sx, np, nt, ns, gq, got, err, moved
vars == <<top, bottom, arr, mem, freed, sb, opc, ob, ot, oa, spc, st, sa, sx, np, nt, ns, gq, got, err, moved>>

Wrap == 100                                   \* stands for SIZE_MAX
Sub1(n) == IF n = 0 THEN Wrap ELSE n - 1
Add1(n) == IF n = Wrap THEN 0 ELSE n + 1
SizeOf(a) == Len(mem[a])
Slot(a, i) == 1 + (i % SizeOf(a))
\* the owner's own view: newest buffered store wins
RECURSIVE OwnB(_, _)
OwnB(s, v) == IF s = <<>> THEN v ELSE OwnB(Tail(s), IF Head(s)[1] = "b" THEN Head(s)[2] ELSE v)
RECURSIVE OwnA(_, _)
OwnA(s, v) == IF s = <<>> THEN v ELSE OwnA(Tail(s), IF Head(s)[1] = "a" THEN Head(s)[2] ELSE v)
RECURSIVE OwnS(_, _, _, _)
OwnS(s, a, i, v) == IF s = <<>> THEN v ELSE OwnS(Tail(s), a, i, IF Head(s)[1] = "s" /\ Head(s)[2] = a /\ Head(s)[3] = i THEN Head(s)[4] ELSE v)
Bad(what) == err' = IF err = "" THEN what ELSE err
Fine == UNCHANGED err
Pend == {e \in 1..Len(sb) : sb[e][1] = "p"}    \* "p" marks the visibility of a pushed item

Init == /\ top = First /\ bottom = First /\ arr = 1 /\ mem = <<[i \in 1..Size0 |-> 0]>> /\ freed = {}
        /\ sb = <<>> /\ opc = "idle" /\ ob = 0 /\ ot = 0 /\ oa = 1
        /\ spc = [t \in Thieves |-> "idle"] /\ st = [t \in Thieves |-> 0] /\ sa = [t \in Thieves |-> 1] /\ sx = [t \in Thieves |-> 0]
        /\ np = 0 /\ nt = 0 /\ ns = [t \in Thieves |-> 0] /\ gq = <<>> /\ got = {} /\ err = "" /\ moved = [t \in Thieves |-> FALSE]

Deliver(x, nq) == /\ gq' = nq /\ got' = got \cup {x}
                  /\ moved' = [t \in Thieves |-> TRUE]

\* a buffered store reaches memory; the bottom store of a push makes its item visible
Drain == /\ sb # <<>> /\ sb' = Tail(sb)
         /\ LET e == Head(sb) IN
              CASE e[1] = "b" -> bottom' = e[2] /\ gq' = (IF e[3] # 0 THEN Append(gq, e[3]) ELSE gq) /\ UNCHANGED <<mem, arr>>
                [] e[1] = "s" -> mem' = [mem EXCEPT ![e[2]][e[3]] = e[4]] /\ UNCHANGED <<bottom, arr, gq>>
                [] e[1] = "a" -> arr' = e[2] /\ UNCHANGED <<bottom, mem, gq>>
         /\ UNCHANGED <<top, freed, opc, ob, ot, oa, spc, st, sa, sx, np, nt, ns, got, err, moved>>
Put(e) == sb' = Append(sb, e)

U_thief == UNCHANGED <<spc, st, sa, sx, ns>>
U_own == UNCHANGED <<sb, opc, ob, ot, oa, np, nt, bottom, arr, mem, freed>>
\* ---- push
P1 == /\ opc = "idle" /\ np < MaxPush /\ np' = np + 1
      /\ ob' = OwnB(sb, bottom) /\ ot' = top /\ oa' = OwnA(sb, arr)
      /\ opc' = IF ob' - ot' > SizeOf(oa') - 1 THEN "grow" ELSE "p2"
      /\ UNCHANGED <<top, bottom, arr, mem, freed, sb, nt, gq, got, err, moved>> /\ U_thief
Grow == /\ opc = "grow" /\ opc' = "p2"
        /\ LET n == SizeOf(oa) * 2  id == Len(mem) + 1
               new == [i \in 1..n |-> LET js == {j \in top..(ob - 1) : 1 + (j % n) = i} IN
                         IF js = {} THEN 0 ELSE LET j == CHOOSE j \in js : TRUE IN OwnS(sb, oa, Slot(oa, j), mem[oa][Slot(oa, j)])]
           IN mem' = Append(mem, new) /\ oa' = id /\ Put(<<"a", id>>)
        /\ freed' = IF FreeOld THEN freed \cup {oa} ELSE freed
        /\ UNCHANGED <<top, bottom, arr, ob, ot, np, nt, gq, got, err, moved>> /\ U_thief
P2 == /\ opc = "p2" /\ opc' = "p3" /\ Put(<<"s", oa, Slot(oa, ob), np>>)
      /\ UNCHANGED <<top, bottom, arr, mem, freed, ob, ot, oa, np, nt, gq, got, err, moved>> /\ U_thief
P3 == /\ opc = "p3" /\ opc' = "idle" /\ Put(<<"b", ob + 1, np>>)
      /\ UNCHANGED <<top, bottom, arr, mem, freed, ob, ot, oa, np, nt, gq, got, err, moved>> /\ U_thief
\* ---- take
T1 == /\ opc = "idle" /\ nt < MaxTake /\ nt' = nt + 1
      /\ ob' = Sub1(OwnB(sb, bottom)) /\ oa' = OwnA(sb, arr)
      /\ ot' = top                                      \* used only if TopEarly
      /\ opc' = "t2"
      /\ UNCHANGED <<top, bottom, arr, mem, freed, sb, np, gq, got, err, moved>> /\ U_thief
T2 == /\ opc = "t2" /\ opc' = "t3" /\ Put(<<"b", ob, 0>>)
      /\ UNCHANGED <<top, bottom, arr, mem, freed, ob, ot, oa, np, nt, gq, got, err, moved>> /\ U_thief
Newest(x) == IF gq # <<>> /\ gq[Len(gq)] = x THEN Fine ELSE Bad("take did not get the newest item")
T3 == /\ opc = "t3" /\ (Fence => sb = <<>>)
      /\ ot' = IF TopEarly THEN ot ELSE top
      /\ LET x == OwnS(sb, oa, Slot(oa, ob), mem[oa][Slot(oa, ob)]) IN
           IF ot' > ob THEN opc' = "t5" /\ UNCHANGED <<gq, got, moved>> /\ (IF gq = <<>> THEN Fine ELSE Bad("empty take"))
           ELSE IF ot' < ob THEN /\ opc' = "idle" /\ Newest(x)
                                 /\ Deliver(x, IF gq = <<>> THEN gq ELSE SubSeq(gq, 1, Len(gq) - 1))
           ELSE opc' = "t4" /\ UNCHANGED <<gq, got, moved>> /\ Fine
      /\ UNCHANGED <<top, bottom, arr, mem, freed, sb, ob, oa, np, nt>> /\ U_thief
T4 == /\ opc = "t4" /\ opc' = "t5" /\ sb = <<>>         \* locked compare and swap
      /\ IF top = ot
         THEN /\ top' = ot + 1
              /\ LET x == mem[oa][Slot(oa, ob)] IN
                   Newest(x) /\ Deliver(x, IF gq = <<>> THEN gq ELSE SubSeq(gq, 1, Len(gq) - 1))
         ELSE UNCHANGED <<top, gq, got, moved>> /\ (IF gq = <<>> THEN Fine ELSE Bad("empty take"))
      /\ UNCHANGED <<bottom, arr, mem, freed, sb, ob, ot, oa, np, nt>> /\ U_thief
T5 == /\ opc = "t5" /\ opc' = "idle" /\ Put(<<"b", Add1(ob), 0>>)
      /\ UNCHANGED <<top, bottom, arr, mem, freed, ob, ot, oa, np, nt, gq, got, err, moved>> /\ U_thief
\* ---- steal
S1(t) == /\ spc[t] = "idle" /\ ns[t] < MaxSteal /\ ns' = [ns EXCEPT ![t] = @ + 1]
         /\ st' = [st EXCEPT ![t] = top] /\ spc' = [spc EXCEPT ![t] = "s2"] /\ moved' = [moved EXCEPT ![t] = FALSE]
         /\ UNCHANGED <<top, sa, sx, gq, got, err>> /\ U_own
S2(t) == /\ spc[t] = "s2"
         /\ IF st[t] < bottom THEN spc' = [spc EXCEPT ![t] = "s3"] /\ Fine
            ELSE /\ spc' = [spc EXCEPT ![t] = "idle"]
                 /\ IF gq = <<>> \/ moved[t] \/ opc \in {"t3", "t4", "t5"} THEN Fine ELSE Bad("empty steal")
         /\ UNCHANGED <<top, st, sa, sx, ns, gq, got, moved>> /\ U_own
S3(t) == /\ spc[t] = "s3" /\ sa' = [sa EXCEPT ![t] = arr] /\ spc' = [spc EXCEPT ![t] = "s4"]
         /\ UNCHANGED <<top, st, sx, ns, gq, got, err, moved>> /\ U_own
S4(t) == /\ spc[t] = "s4" /\ sx' = [sx EXCEPT ![t] = mem[sa[t]][Slot(sa[t], st[t])]] /\ spc' = [spc EXCEPT ![t] = "s5"]
         /\ IF sa[t] \in freed THEN Bad("freed array used") ELSE Fine
         /\ UNCHANGED <<top, st, sa, ns, gq, got, moved>> /\ U_own
S5(t) == /\ spc[t] = "s5" /\ spc' = [spc EXCEPT ![t] = "idle"]
         /\ IF top = st[t]
            THEN /\ top' = top + 1
                 /\ IF gq # <<>> /\ Head(gq) = sx[t] THEN Fine ELSE Bad("steal did not get the oldest item")
                 /\ Deliver(sx[t], IF gq = <<>> THEN gq ELSE Tail(gq))
            ELSE UNCHANGED <<top, gq, got, moved>> /\ (IF moved[t] THEN Fine ELSE Bad("abort without contention"))
         /\ UNCHANGED <<st, sa, sx, ns>> /\ U_own

Next == Drain \/ P1 \/ Grow \/ P2 \/ P3 \/ T1 \/ T2 \/ T3 \/ T4 \/ T5
        \/ \E t \in Thieves : S1(t) \/ S2(t) \/ S3(t) \/ S4(t) \/ S5(t)
Spec == Init /\ [][Next]_vars
Clean == err = ""
Quiet == opc = "idle" /\ sb = <<>> /\ \A t \in Thieves : spc[t] = "idle"
NoneLost == Quiet => /\ bottom - top = Len(gq)
                     /\ \A i \in 1..Len(gq) : mem[arr][Slot(arr, top + i - 1)] = gq[i]
                     /\ \A x \in 1..np : (x \in got) # (\E i \in 1..Len(gq) : gq[i] = x)
=============================================================================
