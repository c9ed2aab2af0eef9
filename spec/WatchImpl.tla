----------------------------- MODULE WatchImpl -----------------------------
(* Watches: descriptors of the system's that tell of changes by numbers of   *)
(* their own, each queue told of once when something comes into it (edge),   *)
(* a task that reads pieces of it until there is nothing, and reports each   *)
(* change to the handler of its watch.  Handlers let others run: watches are *)
(* removed and descriptors closed between any two reports.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Descs, Dirs, Changes, Piece, Renew, Bad
VARIABLES open, num, \* descriptor -> is it open; numbers it has given
          wt,        \* watches: [i, wd, d, h]
          kq,        \* descriptor -> what is to be read: [wd, c]
          edge,      \* descriptor -> something has come since it was told of
          busy,      \* descriptor -> there is a task
          tk,        \* tasks: [i, b, last]: what it has read and not reported
          due,       \* descriptor -> what is to be reported: [h, d, c]
          made, hs, wrong,
          closing    \* descriptors that are being closed, their numbers free already
vars == <<open, num, wt, kq, edge, busy, tk, due, made, hs, wrong, closing>>
Init == /\ open = [i \in Descs |-> TRUE] /\ num = [i \in Descs |-> 0] /\ wt = {} /\ kq = [i \in Descs |-> << >>]
        /\ edge = [i \in Descs |-> FALSE] /\ busy = [i \in Descs |-> FALSE] /\ tk = << >> /\ due = [i \in Descs |-> << >>]
        /\ made = 0 /\ hs = 0 /\ wrong = FALSE /\ closing = {}
Of(i) == {w \in wt : w.i = i}
Watch(i, d) == /\ open[i] /\ hs < Renew /\ ~\E w \in Of(i) : w.d = d
               /\ num' = [num EXCEPT ![i] = @ + 1] /\ hs' = hs + 1
               /\ wt' = wt \cup {[i |-> i, wd |-> num[i] + 1, d |-> d, h |-> hs + 1]}
               /\ UNCHANGED <<open, kq, edge, busy, tk, due, made, wrong, closing>>
Told(i, d) == {w \in Of(i) : w.d = d}
One(S) == CHOOSE x \in S : TRUE
Change(d) == /\ made < Changes /\ made' = made + 1
             /\ kq' = [i \in Descs |-> IF Told(i, d) # {} THEN Append(kq[i], [wd |-> One(Told(i, d)).wd, c |-> made + 1]) ELSE kq[i]]
             /\ edge' = [i \in Descs |-> edge[i] \/ Told(i, d) # {}]
             /\ due' = [i \in Descs |-> IF Told(i, d) # {} THEN Append(due[i], [h |-> One(Told(i, d)).h, d |-> d, c |-> made + 1]) ELSE due[i]]
             /\ UNCHANGED <<open, num, wt, busy, tk, hs, wrong, closing>>
Min(a, b) == IF a < b THEN a ELSE b
Poll(i) == /\ Bad # "NoReg" /\ open[i] /\ edge[i] /\ edge' = [edge EXCEPT ![i] = FALSE]
           /\ IF closing # {} THEN UNCHANGED <<kq, tk, busy>>  \* taken for the one that had the number
              ELSE IF Bad = "Parallel"     \* each piece has a task of its own
              THEN /\ kq[i] # << >> /\ kq' = [kq EXCEPT ![i] = SubSeq(@, Min(Piece, Len(@)) + 1, Len(@))]
                   /\ tk' = Append(tk, [i |-> i, b |-> SubSeq(kq[i], 1, Min(Piece, Len(kq[i]))), last |-> TRUE]) /\ UNCHANGED busy
              ELSE /\ tk' = (IF busy[i] THEN tk ELSE Append(tk, [i |-> i, b |-> << >>, last |-> FALSE]))
                   /\ busy' = [busy EXCEPT ![i] = TRUE] /\ UNCHANGED kq
           /\ UNCHANGED <<open, num, wt, due, made, hs, wrong, closing>>
Drop(t) == SubSeq(tk, 1, t - 1) \o SubSeq(tk, t + 1, Len(tk))
Read(t) == LET i == tk[t].i IN
           /\ tk[t].b = << >>
           /\ IF tk[t].last \/ (Bad # "Flag" /\ kq[i] = << >>)
              THEN tk' = Drop(t) /\ busy' = [busy EXCEPT ![i] = FALSE] /\ UNCHANGED kq
              ELSE /\ tk' = [tk EXCEPT ![t] = [i |-> i, b |-> SubSeq(kq[i], 1, Min(Piece, Len(kq[i]))),
                                              last |-> Bad = "OneRead" \/ (Bad = "Flag" /\ kq[i] = << >>)]]
                   /\ kq' = [kq EXCEPT ![i] = SubSeq(@, Min(Piece, Len(@)) + 1, Len(@))] /\ UNCHANGED busy
           /\ UNCHANGED <<open, num, wt, edge, due, made, hs, wrong, closing>>
\* the watch that a number is of
Found(i, wd) == IF Bad = "Wd" THEN {w \in wt : w.wd = wd /\ \A v \in wt : v.wd = wd => w.i <= v.i} ELSE {w \in Of(i) : w.wd = wd}
Handler(w) == IF Bad = "OneHandler" THEN One({v \in Of(w.i) : \A u \in Of(w.i) : u.h <= v.h}).h ELSE w.h
Report(t) == LET i == tk[t].i b == tk[t].b f == Found(i, b[1].wd) IN
             /\ b # << >> /\ tk' = [tk EXCEPT ![t].b = Tail(b)]
             /\ IF f = {} THEN UNCHANGED <<due, wrong>>
                ELSE LET w == One(f) IN
                     IF due[i] # << >> /\ Head(due[i]) = [h |-> Handler(w), d |-> w.d, c |-> b[1].c]
                     THEN due' = [due EXCEPT ![i] = Tail(@)] /\ UNCHANGED wrong
                     ELSE wrong' = TRUE /\ UNCHANGED due
             /\ UNCHANGED <<open, num, wt, kq, edge, busy, made, hs, closing>>
Remove(w) == /\ wt' = wt \ {w} /\ due' = [due EXCEPT ![w.i] = SelectSeq(@, LAMBDA e : e.h # w.h)]
             /\ UNCHANGED <<open, num, kq, edge, busy, tk, made, hs, wrong, closing>>
\* a task that has the descriptor's events finds it closed and ends
Closed(i) == closing' = closing \ {i} /\ i \in closing /\ UNCHANGED <<open, num, wt, kq, edge, busy, tk, due, made, hs, wrong>>
Close(i) == /\ open[i] /\ closing' = (IF Bad = "Stale" THEN closing \cup {i} ELSE closing) /\ open' = [open EXCEPT ![i] = FALSE]
            /\ wt' = (IF Bad = "CloseAll" THEN {} ELSE wt \ Of(i)) /\ kq' = [kq EXCEPT ![i] = << >>]
            /\ due' = [due EXCEPT ![i] = << >>] /\ UNCHANGED <<num, edge, busy, tk, made, hs, wrong>>
Task == \E t \in 1 .. Len(tk) : Read(t) \/ (tk[t].b # << >> /\ Report(t))
Next == \/ \E i \in Descs : Poll(i) \/ Close(i) \/ Closed(i) \/ (\E d \in Dirs : Watch(i, d))
        \/ \E d \in Dirs : Change(d)
        \/ Task \/ \E w \in wt : Remove(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Task) /\ \A i \in Descs : WF_vars(Poll(i))
----
\* what the contract (Watch.tla) demands
InOrder == ~wrong
\* nothing that is still to be reported is without somebody to report it: what is due to a descriptor is in its queue or with its task
Kept == \A i \in Descs : Len(due[i]) <= Len(kq[i]) + Cardinality({<<t, k>> \in (1 .. Len(tk)) \X (1 .. Changes) : tk[t].i = i /\ k <= Len(tk[t].b)})
AllReported == <>[](\A i \in Descs : due[i] = << >>)
=============================================================================
