------------------------------- MODULE Queue -------------------------------
(* Functions queued to worker threads: each runs once with its arguments, on *)
(* its worker, those of one worker in the order queued and one at a time;    *)
(* whoever asks obtains what that function gave (v: value, e: error number,  *)
(* x: exception), once, and nothing before it ended.                         *)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC
VARIABLES job, line, th, waits
qvars == <<job, line, th, waits>>
QInit == job = << >> /\ line = << >> /\ th = << >> /\ waits = << >>
Of(w) == IF w \in DOMAIN line THEN line[w] ELSE << >>
Queue(j, w) == /\ j \notin DOMAIN job
               /\ job' = (j :> [st |-> "new", w |-> w, kind |-> "", v |-> 0, x |-> "", asked |-> FALSE]) @@ job
               /\ line' = (w :> Append(Of(w), j)) @@ line /\ UNCHANGED <<th, waits>>
\* a worker is one thread, and works for nobody else
Runs(w, t) == IF w \in DOMAIN th THEN th[w] = t /\ UNCHANGED th ELSE (\A u \in DOMAIN th : th[u] # t) /\ th' = (w :> t) @@ th
Run(j, t) == /\ j \in DOMAIN job /\ job[j].st = "new" /\ Head(Of(job[j].w)) = j /\ Runs(job[j].w, t)
             /\ job' = [job EXCEPT ![j].st = "run"] /\ UNCHANGED <<line, waits>>
Ret(j, k, v, x) == /\ j \in DOMAIN job /\ job[j].st = "run"
                   /\ job' = [job EXCEPT ![j].st = "ended", ![j].kind = k, ![j].v = v, ![j].x = x]
                   /\ line' = [line EXCEPT ![job[j].w] = Tail(@)] /\ UNCHANGED <<th, waits>>
Valid(j, b) == j \in DOMAIN job /\ (IF b THEN TRUE ELSE job[j].st = "ended") /\ UNCHANGED qvars
Got(j, k, v, x) == /\ j \in DOMAIN job /\ job[j].st = "ended" /\ ~job[j].asked /\ job[j].kind = k /\ job[j].v = v /\ job[j].x = x
                   /\ job' = [job EXCEPT ![j].asked = TRUE] /\ UNCHANGED <<line, th, waits>>
\* a task waits for several at once; the values are handed to a function as they come
Wait(t) == t \notin DOMAIN waits /\ waits' = (t :> EmptyBag) @@ waits /\ UNCHANGED <<job, line, th>>
Then(t, v) == t \in DOMAIN waits /\ waits' = [waits EXCEPT ![t] = @ (+) SetToBag({v})] /\ UNCHANGED <<job, line, th>>
Value(j) == IF job[j].kind = "e" THEN -1 ELSE job[j].v
RECURSIVE BagOf(_)
BagOf(S) == IF S = {} THEN EmptyBag ELSE LET j == CHOOSE j \in S : TRUE IN SetToBag({Value(j)}) (+) BagOf(S \ {j})
Waited(t, S, then) == /\ t \in DOMAIN waits /\ (\A j \in S : job[j].st = "ended" /\ ~job[j].asked)
                      /\ waits[t] = (IF then THEN BagOf({j \in S : job[j].kind # "x"}) ELSE EmptyBag)
                      /\ waits' = [u \in DOMAIN waits \ {t} |-> waits[u]]
                      /\ job' = [j \in DOMAIN job |-> IF j \in S /\ then /\ job[j].kind # "x" THEN [job[j] EXCEPT !.asked = TRUE] ELSE job[j]]
                      /\ UNCHANGED <<line, th>>
Over == (\A j \in DOMAIN job : job[j].st = "ended") /\ waits = << >> /\ UNCHANGED qvars
=============================================================================
