------------------------------- MODULE Watch -------------------------------
(* Directories and watches.  A descriptor (the loop's own or that of one     *)
(* fs_events call) watches directories, each with a handler; each change of  *)
(* an entry of a watched directory is reported to that handler once, in the  *)
(* order made; the system may take equal changes in a row for one.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES par, ex,  \* directory -> the one it is in (-1: none); is it there
          wt,       \* <<descriptor, directory>> -> [h, root, gone]: handler, was it named itself, is the directory no more
          q,        \* descriptor -> changes not reported yet: [d, n, k]
          st        \* descriptor -> "open" (reported), "read" (by oneself), "ending", "closed"
wvars == <<par, ex, wt, q, st>>
WInit == par = << >> /\ ex = << >> /\ wt = << >> /\ q = << >> /\ st = << >>
Dirs(p, x) == par = << >> /\ par' = p /\ ex' = x /\ UNCHANGED <<wt, q, st>>
RECURSIVE Under(_, _)
Under(d, top) == IF d = -1 THEN FALSE ELSE IF d = top THEN TRUE ELSE Under(par[d], top)
Subtree(top) == {d \in DOMAIN ex : ex[d] /\ Under(d, top)}
Watched(i) == {d \in DOMAIN ex : <<i, d>> \in DOMAIN wt}
\* all that are in the directory by now are watched, too
StartWatch(i, h, top) ==
    /\ ex[top] /\ (IF i \in DOMAIN st THEN st[i] = "open" ELSE TRUE)
    /\ st' = (i :> "open") @@ st /\ q' = (IF i \in DOMAIN q THEN q ELSE (i :> << >>) @@ q)
    /\ wt' = [x \in {<<i, d>> : d \in Subtree(top)} |->
                [h |-> h, gone |-> FALSE, root |-> IF x[2] = top THEN TRUE ELSE IF x \in DOMAIN wt THEN wt[x].root ELSE FALSE]] @@ wt
    /\ UNCHANGED <<par, ex>>
\* just this one, on a descriptor that somebody reads, and without changes of attributes
WatchOne(i, h, d) ==
    /\ ex[d] /\ (IF i \in DOMAIN st THEN st[i] = "read" ELSE TRUE)
    /\ st' = (i :> "read") @@ st /\ q' = (IF i \in DOMAIN q THEN q ELSE (i :> << >>) @@ q)
    /\ wt' = (<<i, d>> :> [h |-> h, gone |-> FALSE, root |-> TRUE]) @@ wt /\ UNCHANGED <<par, ex>>
Empty(i) == q[i] = << >> /\ wt' = [x \in {x \in DOMAIN wt : ~(x[1] = i /\ wt[x].gone)} |-> wt[x]] /\ UNCHANGED <<par, ex, q, st>>
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* no more reports of it
Remove(i, d) == /\ <<i, d>> \in DOMAIN wt /\ wt' = Without(wt, {<<i, d>>})
                /\ q' = [q EXCEPT ![i] = SelectSeq(@, LAMBDA e : e.d # d)] /\ UNCHANGED <<par, ex, st>>
Close(i) == /\ wt' = Without(wt, {x \in DOMAIN wt : x[1] = i}) /\ q' = [q EXCEPT ![i] = << >>] /\ st' = [st EXCEPT ![i] = "closed"]
            /\ UNCHANGED <<par, ex>>
Cancel(i) == st[i] = "open" /\ st' = [st EXCEPT ![i] = "ending"] /\ UNCHANGED <<par, ex, wt, q>>
\* what a change means for the entries of directories
Effects(op, d, n, d2, n2) ==
    CASE op \in {"create", "mkdir"} -> <<[d |-> d, n |-> n, k |-> "A"]>>
      [] op \in {"unlink", "rmdir"} -> <<[d |-> d, n |-> n, k |-> "R"]>>
      [] op = "write" -> <<[d |-> d, n |-> n, k |-> "M"]>>
      [] op = "chmod" -> <<[d |-> d, n |-> n, k |-> "T"]>>
      [] op = "rename" -> <<[d |-> d, n |-> n, k |-> "R"], [d |-> d2, n |-> n2, k |-> "A"]>>
Change(op, d, n, d2, n2) ==
    /\ ex' = (IF op = "mkdir" THEN [ex EXCEPT ![d2] = TRUE] ELSE IF op = "rmdir" THEN [ex EXCEPT ![d2] = FALSE] ELSE ex)
    /\ q' = [i \in DOMAIN q |-> q[i] \o SelectSeq(Effects(op, d, n, d2, n2),
                                       LAMBDA e : IF <<i, e.d>> \in DOMAIN wt THEN ~wt[<<i, e.d>>].gone /\ ~(st[i] = "read" /\ e.k = "T") ELSE FALSE)]
    /\ wt' = (IF op = "rmdir" THEN [x \in DOMAIN wt |-> IF x[2] = d2 THEN [wt[x] EXCEPT !.gone = TRUE] ELSE wt[x]] ELSE wt)
    /\ UNCHANGED <<par, st>>
Kind(k) == IF k = "T" THEN "M" ELSE k
Run(s) == CHOOSE m \in 1 .. Len(s) : (\A j \in 1 .. m : s[j] = s[1]) /\ (IF m = Len(s) THEN TRUE ELSE s[m + 1] # s[1])
Report(h, d, n, k, root) ==
    \E i \in DOMAIN q :
       /\ <<i, d>> \in DOMAIN wt /\ wt[<<i, d>>].h = h /\ wt[<<i, d>>].root = (root = 1)
       /\ q[i] # << >> /\ q[i][1].d = d /\ q[i][1].n = n /\ Kind(q[i][1].k) = k
       /\ \E m \in 1 .. Run(q[i]) : q' = [q EXCEPT ![i] = SubSeq(@, m + 1, Len(@))]
       /\ UNCHANGED <<par, ex, wt, st>>
\* time enough has passed: all has been reported; directories that are no more are not watched any more
Settled == /\ \A i \in DOMAIN q : IF st[i] = "open" /\ (\E x \in DOMAIN wt : x[1] = i /\ ~wt[x].gone) THEN q[i] = << >> ELSE TRUE
           /\ wt' = Without(wt, {x \in DOMAIN wt : wt[x].gone /\ q[x[1]] = << >>}) /\ UNCHANGED <<par, ex, q, st>>
Count(i, c, y) == LET n == Cardinality({x \in DOMAIN wt : x[1] = i}) IN
                  /\ (IF \E x \in DOMAIN wt : x[1] = i /\ wt[x].gone THEN c <= n ELSE c = n)
                  /\ y = (IF c > 0 THEN 1 ELSE 0) /\ UNCHANGED wvars
=============================================================================
