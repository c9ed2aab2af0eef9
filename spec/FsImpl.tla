------------------------------- MODULE FsImpl -------------------------------
(* How the library carries out file operations: a task hands a job to the   *)
(* next worker of the pool, the worker makes the system call, the answer    *)
(* (result, errno, data) travels back in the job's promise, the task takes  *)
(* it.  The system calls are those of Fs; that what the task is told is     *)
(* what its own operation gave is what has to be shown.                     *)
EXTENDS Fs
CONSTANTS T, W, Ops, Bad
VARIABLES wq, nxt, last, prom, err, left
ivars == <<wq, nxt, last, prom, err, left>>
vars == <<fvars, ivars>>
Nothing == [st |-> "no", r |-> 0, e |-> 0, d |-> << >>]
A == <<"a">>  B == <<"b">>  DA == <<"d", "a">>  DD == <<"d">>
OpenQ(p, cr) == [op |-> "open", p |-> p, rw |-> "rw", cr |-> cr, ex |-> 0, tr |-> 0, app |-> 0, mode |-> 0]
Base == {OpenQ(A, 0), OpenQ(A, 1), OpenQ(DA, 1)} \cup {[op |-> "mkdir", p |-> DD, mode |-> 0], [op |-> "rmdir", p |-> DD], [op |-> "unlink", p |-> A], [op |-> "rename", p |-> A, p2 |-> DA],
        [op |-> "rename", p |-> DD, p2 |-> B], [op |-> "stat", p |-> A]}
Using(f) == \E t \in DOMAIN pend : pend[t].q.op \in {"read", "write", "close"} /\ pend[t].q.f = f
Reqs == Base \cup UNION {{[op |-> "read", f |-> f, n |-> 1], [op |-> "write", f |-> f, b |-> <<7>>], [op |-> "close", f |-> f]} : f \in {g \in DOMAIN fd : ~Using(g)}}
Init == FInit /\ wq = [w \in 1..W |-> << >>] /\ nxt = 1 /\ last = [w \in 1..W |-> -1] /\ prom = [t \in T |-> Nothing] /\ err = 0 /\ left = [t \in T |-> Ops]
Free == CHOOSE n \in 3..20 : n \notin DOMAIN fd /\ (\A t \in DOMAIN pend : pend[t].done /\ pend[t].r = NewFd => prom[t].r # n)
                             /\ \A m \in 3..(n - 1) : m \in DOMAIN fd \/ \E t \in DOMAIN pend : pend[t].done /\ pend[t].r = NewFd /\ prom[t].r = m
\* the job is given to the next worker
Submit(t, q) ==
  /\ left[t] > 0 /\ prom[t].st = "no" /\ Call(t, q) /\ left' = [left EXCEPT ![t] = @ - 1] /\ nxt' = (nxt % W) + 1 /\ UNCHANGED err
  /\ IF Bad = "Last" /\ q.op = "close" /\ last[nxt] = q.f
     THEN prom' = [prom EXCEPT ![t] = [st |-> "done", r |-> -1, e |-> 0, d |-> << >>]] /\ last' = [last EXCEPT ![nxt] = -1] /\ UNCHANGED wq
     ELSE prom' = [prom EXCEPT ![t].st = "wait"] /\ wq' = [wq EXCEPT ![nxt] = Append(@, t)]
          /\ last' = IF q.op = "close" THEN [last EXCEPT ![nxt] = q.f] ELSE IF q.op = "open" THEN [last EXCEPT ![nxt] = -1] ELSE last
\* the system call, and the answer is put into the promise
Run(w) ==
  /\ wq[w] # << >>
  /\ LET t == Head(wq[w]) IN
     /\ Effect(t)
     /\ prom' = [prom EXCEPT ![t] = [st |-> "done", r |-> IF pend'[t].r = NewFd THEN Free ELSE pend'[t].r, e |-> pend'[t].e, d |-> pend'[t].d]]
     /\ err' = IF pend'[t].e # 0 THEN pend'[t].e ELSE err
  /\ wq' = [wq EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<nxt, last, left>>
\* one answer for several tasks' jobs of a worker would be another mistake
Mine(t) == IF Bad = "Errno" THEN [prom[t] EXCEPT !.e = IF prom[t].r < 0 THEN err ELSE 0] ELSE prom[t]
Take(t) ==
  /\ prom[t].st = "done" /\ prom' = [prom EXCEPT ![t] = Nothing] /\ UNCHANGED <<wq, nxt, last, err, left>>
  /\ pend' = [u \in DOMAIN pend \ {t} |-> pend[u]] /\ UNCHANGED <<ino, des>>
  /\ fd' = IF pend[t].r = NewFd THEN (prom[t].r :> pend[t].d[1]) @@ fd ELSE fd
Next == (\E t \in T : \E q \in Reqs : Submit(t, q)) \/ (\E w \in 1..W : Run(w)) \/ (\E t \in T : Take(t))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ (\A w \in 1..W : WF_vars(Run(w))) /\ \A t \in T : WF_vars(Take(t))
\* ---- what is told is what happened
Told == \A t \in T : prom[t].st = "done" => LET a == Mine(t) IN
          t \in DOMAIN pend /\ pend[t].done /\ Same(pend[t].r, pend[t].d, a.r) /\ (a.r < 0 => a.e = pend[t].e) /\ (a.r >= 0 => a.d = pend[t].d)
\* numbers of descriptors are not given twice
Distinct == \A t, u \in T : t # u /\ prom[t].st = "done" /\ prom[u].st = "done" /\ t \in DOMAIN pend /\ u \in DOMAIN pend /\ pend[t].r = NewFd /\ pend[u].r = NewFd => prom[t].r # prom[u].r
\* the directory stays a tree, descriptors have descriptions
Parents(i) == {<<d, n>> \in (DOMAIN ino) \X {"a", "b", "d"} : n \in DOMAIN ino[d].ent /\ ino[d].ent[n] = i}
RECURSIVE Reach(_)
Reach(S) == LET R == S \cup UNION {{ino[d].ent[n] : n \in DOMAIN ino[d].ent} : d \in S} IN IF R = S THEN S ELSE Reach(R)
IsTree == /\ \A i \in DOMAIN ino : Cardinality(Parents(i)) <= (IF i = 1 THEN 0 ELSE 1)
          /\ \A i \in DOMAIN ino : Parents(i) # {} /\ i \notin Reach({1}) => \E j \in DOMAIN ino : Parents(j) = {} /\ i \in Reach({j}) /\ j # 1 /\ ino[j].ent # << >>
          /\ \A i \in DOMAIN ino : i \notin Reach({ino[i].ent[n] : n \in DOMAIN ino[i].ent})
Sound == \A f \in DOMAIN fd : fd[f] \in DOMAIN des /\ des[fd[f]].i \in DOMAIN ino /\ ino[des[fd[f]].i].k = "f"
Answered == \A t \in T : prom[t].st = "wait" ~> prom[t].st # "wait"
=============================================================================
