------------------------------ MODULE TasksImpl ------------------------------
(* The scheduler as built (events.c): a FIFO run queue that also holds the   *)
(* poller of the sleep queue, a sleep queue sorted by deadline, waiting by   *)
(* re-queuing until the condition holds, a group waiter parked on a sleeping *)
(* member.  Programs are arbitrary: a running task picks its next operation  *)
(* at random within a budget.                                                *)
(*                                                                           *)
(* With Ghost, the variables of the contract (Tasks) are carried along and   *)
(* every step asserts that the contract permits it: refinement by Assert.    *)
(* Without Ghost the state space is closed and liveness is checked.          *)
EXTENDS Tasks
CONSTANTS N,            \* number of tasks
          Budget,       \* operations per task
          MaxClock,
          Ghost,
          LinkBug       \* TRUE: the wake-up of a sleeper leaves its link to the waiter (a defect found in the code)
VARIABLES runq, slq, pc, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval
ivars == <<runq, slq, pc, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval>>
T == 1..N
P == 0                  \* the poller
NoOne == -1

Must(A) == IF Ghost THEN Assert(ENABLED A, "contract violated") /\ A ELSE UNCHANGED tvars
Skip == UNCHANGED tvars

IInit == /\ runq = <<P, 1>> /\ slq = <<>>
         /\ pc = [t \in T |-> IF t = 1 THEN "new" ELSE "none"]
         /\ due = [t \in T |-> 0] /\ tgt = [t \in T |-> 0] /\ left = [t \in T |-> Budget]
         /\ link = [t \in T |-> 0] /\ memb = [t \in T |-> <<>>] /\ slot = [t \in T |-> 0]
         /\ owner = [t \in T |-> 0] /\ clock = 0 /\ running = NoOne /\ born = 1
         /\ ret = [t \in T |-> 0] /\ nval = 0
         /\ n = 1 /\ now = 0 /\ cur = 0
         /\ task = IF Ghost THEN (1 :> [Fresh(0, FALSE, 1) EXCEPT !.rid = 1]) ELSE <<>>

(* --- scheduler ---------------------------------------------------------- *)
RECURSIVE WakeAll(_, _, _)
WakeAll(q, s, lk) ==      \* <<run queue, sleep queue, links, woken>>
    IF s = <<>> \/ due[Head(s)] > clock THEN <<q, s, lk, {}>>
    ELSE LET t == Head(s)
             w == lk[t]
             q2 == IF w # 0 THEN q \o <<t, w>> ELSE Append(q, t)
             lk2 == IF LinkBug THEN [lk EXCEPT ![IF w = 0 THEN t ELSE w] = 0] ELSE [lk EXCEPT ![t] = 0]
             r == WakeAll(q2, Tail(s), lk2)
         IN <<r[1], r[2], r[3], r[4] \cup {t}>>
Poll == /\ running = NoOne /\ runq # <<>> /\ Head(runq) = P
        /\ LET r == WakeAll(Tail(runq), slq, link) IN
             /\ runq' = Append(r[1], P) /\ slq' = r[2] /\ link' = r[3]
             /\ pc' = [t \in T |-> IF t \in r[4] THEN "woken" ELSE pc[t]]
        /\ UNCHANGED <<due, tgt, left, memb, slot, owner, clock, running, born, ret, nval>> /\ Skip
Tick == /\ clock < MaxClock /\ clock' = clock + 1
        /\ UNCHANGED <<runq, slq, pc, due, tgt, left, link, memb, slot, owner, running, born, ret, nval>> /\ Skip
Dispatch == /\ running = NoOne /\ runq # <<>> /\ Head(runq) # P
            /\ running' = Head(runq) /\ runq' = Tail(runq)
            /\ UNCHANGED <<slq, pc, due, tgt, left, link, memb, slot, owner, clock, born, ret, nval>> /\ Skip

Keep(vs) == UNCHANGED vs
Requeue(t) == runq' = Append(runq, t) /\ running' = NoOne

(* --- a task gets the processor ------------------------------------------- *)
Begin(t) == /\ pc[t] = "new" /\ pc' = [pc EXCEPT ![t] = "on"]
            /\ Must(Start(t, t, clock))
            /\ Keep(<<runq, slq, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval>>)
Back(t) == /\ pc[t] = "rdy" /\ pc' = [pc EXCEPT ![t] = "on"] /\ Must(Resume(t, clock))
           /\ Keep(<<runq, slq, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval>>)
Woke(t) == /\ pc[t] = "woken" /\ pc' = [pc EXCEPT ![t] = "on"] /\ Must(Wake(t, clock))
           /\ Keep(<<runq, slq, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval>>)
AwaitGo(t) == /\ pc[t] = "awt"
              /\ IF pc[tgt[t]] = "dead"
                   THEN /\ pc' = [pc EXCEPT ![t] = "on"] /\ Must(Got(t, ret[tgt[t]], clock)) /\ Keep(<<runq, running>>)
                   ELSE Requeue(t) /\ Skip /\ Keep(pc)
              /\ Keep(<<slq, due, tgt, left, link, memb, slot, owner, clock, born, ret, nval>>)
NextGo(t) == /\ pc[t] = "nxt"
             /\ LET g == tgt[t] IN
                IF slot[g] # 0 THEN /\ slot' = [slot EXCEPT ![g] = 0] /\ pc' = [pc EXCEPT ![t] = "on"]
                                    /\ Must(Value(t, slot[g], clock)) /\ Keep(<<runq, running, owner>>)
                ELSE IF pc[g] = "dead" THEN /\ pc' = [pc EXCEPT ![t] = "on"] /\ owner' = [owner EXCEPT ![g] = 0]
                                            /\ Must(Value(t, None, clock)) /\ Keep(<<runq, running, slot>>)
                ELSE Requeue(t) /\ Skip /\ Keep(<<pc, slot, owner>>)
             /\ Keep(<<slq, due, tgt, left, link, memb, clock, born, ret, nval>>)
GiveGo(t) == /\ pc[t] = "giv"
             /\ Requeue(t)
             /\ IF slot[t] # 0 THEN Keep(<<pc, slot>>)
                ELSE slot' = [slot EXCEPT ![t] = tgt[t]] /\ pc' = [pc EXCEPT ![t] = "gav"]
             /\ Skip /\ Keep(<<slq, due, tgt, left, link, memb, owner, clock, born, ret, nval>>)
GaveGo(t) == /\ pc[t] = "gav" /\ pc' = [pc EXCEPT ![t] = "on"] /\ Must(Gave(t, clock))
             /\ Keep(<<runq, slq, due, tgt, left, link, memb, slot, owner, clock, running, born, ret, nval>>)
(* group wait: look at some member still there; park on it if it sleeps *)
GroupGo(t) == /\ pc[t] = "grp"
              /\ LET alive == {i \in 1..Len(memb[t]) : pc[memb[t][i]] # "dead"} IN
                 IF alive = {} THEN /\ memb' = [memb EXCEPT ![t] = <<>>] /\ pc' = [pc EXCEPT ![t] = "on"]
                                    /\ Must(GroupDone(t, clock)) /\ Keep(<<runq, running, link>>)
                 ELSE \E i \in alive : LET m == memb[t][i] IN
                      IF pc[m] = "slp" THEN /\ link' = [link EXCEPT ![m] = t] /\ running' = NoOne
                                            /\ pc' = [pc EXCEPT ![t] = "parked"] /\ Keep(<<runq, memb>>) /\ Skip
                      ELSE Requeue(t) /\ Keep(<<pc, link, memb>>) /\ Skip
              /\ Keep(<<slq, due, tgt, left, slot, owner, clock, born, ret, nval>>)
Unpark(t) == /\ pc[t] = "parked" /\ pc' = [pc EXCEPT ![t] = "grp"] /\ Requeue(t) /\ Skip
             /\ Keep(<<slq, due, tgt, left, link, memb, slot, owner, clock, born, ret, nval>>)

(* --- what a running task does next ---------------------------------------- *)
Ready(t) == pc[t] = "on" /\ left[t] > 0
Use(t) == left' = [left EXCEPT ![t] = @ - 1]
InGroup(t) == memb[t] # <<>>
DoYield(t) == /\ Ready(t) /\ Use(t) /\ Requeue(t) /\ pc' = [pc EXCEPT ![t] = "rdy"] /\ Must(Yield(t, clock))
              /\ Keep(<<slq, due, tgt, link, memb, slot, owner, clock, born, ret, nval>>)
Insert(s, t, d) == LET k == CHOOSE k \in 0..Len(s) : (\A i \in 1..k : due[s[i]] < d) /\ (k = Len(s) \/ due[s[k + 1]] >= d)
                   IN SubSeq(s, 1, k) \o <<t>> \o SubSeq(s, k + 1, Len(s))
DoSleep(t) == /\ Ready(t) /\ Use(t)
              /\ \E d \in 0..2 : /\ clock + d <= MaxClock
                                 /\ due' = [due EXCEPT ![t] = clock + d]
                                 /\ slq' = Insert(slq, t, clock + d)
                                 /\ Must(Sleep(t, d, clock))
              /\ pc' = [pc EXCEPT ![t] = "slp"] /\ running' = NoOne
              /\ Keep(<<runq, tgt, link, memb, slot, owner, clock, born, ret, nval>>)
(* start a task: plain, member of the own group, or generator *)
DoCreate(t) == /\ Ready(t) /\ Use(t) /\ born < N /\ born' = born + 1
               /\ LET c == born + 1 IN
                  /\ runq' = Append(runq, c) /\ pc' = [pc EXCEPT ![c] = "new"]
                  /\ \/ /\ Keep(<<memb, owner>>) /\ ~InGroup(t)
                        /\ Must(Create(t, c, FALSE, clock))
                     \/ /\ \/ InGroup(t)
                           \/ \A g \in T : owner[g] # t
                        /\ memb' = [memb EXCEPT ![t] = Append(@, c)] /\ Keep(owner)
                        /\ Must(IF InGroup(t) THEN Create(t, c, FALSE, clock)
                                ELSE cur = t /\ Step(clock, 0, [task EXCEPT ![t].group = TRUE, ![t].members = {c}] @@ (c :> Fresh(t, FALSE, n + 1)), cur))
                     \/ /\ owner' = [owner EXCEPT ![c] = t] /\ Keep(memb) /\ ~InGroup(t)
                        /\ Must(Create(t, c, FALSE, clock))
               /\ Keep(<<slq, due, tgt, link, slot, clock, running, ret, nval>>)
DoAwait(t) == /\ Ready(t) /\ Use(t)
              /\ \E c \in {c \in T : c > t /\ c <= born /\ owner[c] = 0} :
                    tgt' = [tgt EXCEPT ![t] = c] /\ Must(Await(t, c, clock))
              /\ pc' = [pc EXCEPT ![t] = "awt"]
              /\ Keep(<<runq, slq, due, link, memb, slot, owner, clock, running, born, ret, nval>>)
MyGens(t) == {g \in T : owner[g] = t}
DoNext(t) == /\ pc[t] = "on" /\ \E g \in MyGens(t) : tgt' = [tgt EXCEPT ![t] = g] /\ Must(Next1(t, g, clock))
             /\ pc' = [pc EXCEPT ![t] = "nxt"]
             /\ Keep(<<runq, slq, due, left, link, memb, slot, owner, clock, running, born, ret, nval>>)
DoGive(t) == /\ Ready(t) /\ Use(t) /\ owner[t] # 0 /\ nval' = nval + 1
             /\ tgt' = [tgt EXCEPT ![t] = nval + 1] /\ Must(Give(t, nval + 1, clock))
             /\ pc' = [pc EXCEPT ![t] = "giv"]
             /\ Keep(<<runq, slq, due, link, memb, slot, owner, clock, running, born, ret>>)
DoGWait(t) == /\ pc[t] = "on" /\ InGroup(t) /\ Requeue(t) /\ pc' = [pc EXCEPT ![t] = "grp"] /\ Must(GroupWait(t, clock))
              /\ Keep(<<slq, due, tgt, left, link, memb, slot, owner, clock, born, ret, nval>>)
DoFinish(t) == /\ pc[t] = "on" /\ ~InGroup(t) /\ MyGens(t) = {}
               /\ \E v \in {0, 10 + t} : ret' = [ret EXCEPT ![t] = v] /\ Must(Finish(t, v, clock))
               /\ pc' = [pc EXCEPT ![t] = "dead"] /\ running' = NoOne
               /\ Keep(<<runq, slq, due, tgt, left, link, memb, slot, owner, clock, born, nval>>)

Go(t) == running = t /\ (Begin(t) \/ Back(t) \/ Woke(t) \/ AwaitGo(t) \/ NextGo(t) \/ GiveGo(t) \/ GaveGo(t) \/ GroupGo(t) \/ Unpark(t)
                         \/ DoYield(t) \/ DoSleep(t) \/ DoCreate(t) \/ DoAwait(t) \/ DoNext(t) \/ DoGive(t) \/ DoGWait(t) \/ DoFinish(t))
INext == Poll \/ Tick \/ Dispatch \/ \E t \in T : Go(t)
ISpec == IInit /\ [][INext]_<<ivars, tvars>>
Live == /\ ISpec /\ WF_<<ivars, tvars>>(Tick) /\ WF_<<ivars, tvars>>(Poll) /\ WF_<<ivars, tvars>>(Dispatch)
        /\ \A t \in T : WF_<<ivars, tvars>>(Go(t))

Born == 1..born
Count(q, t) == Cardinality({i \in 1..Len(q) : q[i] = t})
(* every unfinished task is in exactly one place *)
NoneLost == \A t \in Born : LET where == Count(runq, t) + Count(slq, t) + (IF running = t THEN 1 ELSE 0)
                                         + Cardinality({m \in T : link[m] = t}) IN
               /\ pc[t] # "dead" => where = 1
               /\ pc[t] = "dead" => where = 0
ParkedLinked == \A m \in T : link[m] # 0 => pc[m] = "slp" /\ pc[link[m]] = "parked"
SortedSleep == \A i, j \in 1..Len(slq) : i < j => due[slq[i]] <= due[slq[j]]
PollerOnce == Count(runq, P) = 1
AllEnd == <>(\A t \in Born : pc[t] = "dead")
ContractInv == Ghost => TypeOK /\ OneRunning /\ SlotBound
Bound == n <= 40
=============================================================================
