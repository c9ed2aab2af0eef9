------------------------------- MODULE RpImpl -------------------------------
(* src/rpmalloc.c, one heap, one size class: the lists of free blocks of a   *)
(* span and of its heap, blocks freed by other threads (free_list_deferred,  *)
(* list_size, the INVALID_POINTER lock), spans all of whose blocks were freed*)
(* by others (span_free_deferred), spans kept for reuse.  Steps as in the    *)
(* code: _rpmalloc_allocate_from_heap_fallback, _span_extract_free_list_     *)
(* deferred, _deallocate_direct_small_or_medium, _deallocate_defer_...       *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Others, S, B, Page,  \* the other threads; spans; blocks per span; blocks linked at a time
          CountIn,   \* list_size counts inside the lock
          Wait,      \* the owner waits for the lock before it gives a span up
          Reset,     \* list_size starts again when the list is taken
          Once,      \* the count that decides is the one made inside the lock
          Clear      \* a span taken into use again starts with empty lists
VARIABLES fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, live, pc, cur, tmp, bad
vars == <<fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, live, pc, cur, tmp, bad>>
Spans == 1..S
Own == 0
Threads == Others \cup {Own}
Sp(b) == b \div 10
Inv == <<-1>>
Min(a, b) == IF a < b THEN a ELSE b
Rng(q) == {q[k] : k \in 1..Len(q)}
Drop(q, x) == SelectSeq(q, LAMBDA y : y # x)
Init == /\ fl = [s \in Spans |-> << >>] /\ fld = [s \in Spans |-> << >>] /\ lsz = [s \in Spans |-> 0]
        /\ used = [s \in Spans |-> 0] /\ limit = [s \in Spans |-> 0] /\ st = [s \in Spans |-> "none"]
        /\ hfl = << >> /\ partial = << >> /\ sfd = << >> /\ cache = << >> /\ live = {}
        /\ pc = [t \in Threads |-> "out"] /\ cur = [t \in Threads |-> 0] /\ tmp = [t \in Threads |-> << >>] /\ bad = FALSE
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
Give(b) == live' = live \cup {b} /\ bad' = (bad \/ b \in live)
Full(s) == fl[s] = << >> /\ limit[s] >= B
\* ---- the owner allocates
Pop == /\ pc[Own] = "out" /\ hfl # << >> /\ Give(Head(hfl)) /\ hfl' = Tail(hfl)
       /\ UNCHANGED <<fl, fld, lsz, used, limit, st, partial, sfd, cache, pc, cur, tmp>>
Blocks(s, from, n) == [k \in 1..n |-> 10 * s + from + k]
Fall == /\ pc[Own] = "out" /\ hfl = << >> /\ partial # << >>
        /\ LET s == Head(partial)  n == Min(Page, B - limit[s]) IN
           /\ IF fl[s] # << >> THEN /\ cur' = [cur EXCEPT ![Own] = Head(fl[s])] /\ hfl' = Tail(fl[s])
                                    /\ fl' = [fl EXCEPT ![s] = << >>] /\ used' = [used EXCEPT ![s] = limit[s]] /\ UNCHANGED limit
              ELSE /\ n > 0 /\ cur' = [cur EXCEPT ![Own] = 10 * s + limit[s] + 1] /\ hfl' = Blocks(s, limit[s] + 1, n - 1)
                   /\ limit' = [limit EXCEPT ![s] = @ + n] /\ used' = [used EXCEPT ![s] = limit[s] + n] /\ UNCHANGED fl
           /\ Set(Own, IF fld[s] # << >> THEN "take" ELSE "fin")
        /\ UNCHANGED <<fld, lsz, st, partial, sfd, cache, live, tmp, bad>>
TakeL == LET s == Head(partial) IN
         /\ pc[Own] = "take" /\ fld[s] # Inv
         /\ fl' = [fl EXCEPT ![s] = fld[s]] /\ fld' = [fld EXCEPT ![s] = Inv] /\ Set(Own, "sub")
         /\ UNCHANGED <<lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
Sub == LET s == Head(partial) IN
       /\ pc[Own] = "sub" /\ used' = [used EXCEPT ![s] = @ - lsz[s]] /\ lsz' = [lsz EXCEPT ![s] = IF Reset THEN 0 ELSE @] /\ Set(Own, "put")
       /\ UNCHANGED <<fl, fld, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
Put == LET s == Head(partial) IN
       /\ pc[Own] = "put" /\ fld' = [fld EXCEPT ![s] = << >>] /\ Set(Own, "fin")
       /\ UNCHANGED <<fl, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
Fin == LET s == Head(partial) IN
       /\ pc[Own] = "fin" /\ Give(cur[Own]) /\ Set(Own, "out")
       /\ IF Full(s) THEN partial' = Tail(partial) /\ st' = [st EXCEPT ![s] = "full"] ELSE UNCHANGED <<partial, st>>
       /\ UNCHANGED <<fl, fld, lsz, used, limit, hfl, sfd, cache, cur, tmp>>
\* no list has a block: spans others freed, spans kept, a new one
Use(s) == LET n == Min(Page, B) IN
          /\ fl' = [fl EXCEPT ![s] = << >>] /\ lsz' = [lsz EXCEPT ![s] = 0]
          /\ fld' = [fld EXCEPT ![s] = IF Clear THEN << >> ELSE @]
          /\ limit' = [limit EXCEPT ![s] = n] /\ used' = [used EXCEPT ![s] = n] /\ Give(10 * s + 1) /\ hfl' = Blocks(s, 1, n - 1)
          /\ IF n < B THEN partial' = <<s>> \o partial /\ st' = [st EXCEPT ![s] = "partial"]
             ELSE UNCHANGED partial /\ st' = [st EXCEPT ![s] = "full"]
More == /\ pc[Own] = "out" /\ hfl = << >> /\ partial = << >>
        /\ IF sfd # << >> THEN Use(Head(sfd)) /\ cache' = Tail(sfd) \o cache /\ sfd' = << >>
           ELSE IF cache # << >> THEN Use(Head(cache)) /\ cache' = Tail(cache) /\ UNCHANGED sfd
           ELSE (\E s \in Spans : st[s] = "none" /\ Use(s)) /\ UNCHANGED <<cache, sfd>>
        /\ UNCHANGED <<pc, cur, tmp>>
\* ---- the owner frees
Free == /\ pc[Own] = "out"
        /\ \E b \in live : LET s == Sp(b) IN
           /\ live' = live \ {b} /\ cur' = [cur EXCEPT ![Own] = s]
           /\ LET u == IF Full(s) THEN B ELSE used[s] IN
              /\ used' = [used EXCEPT ![s] = u - 1] /\ fl' = [fl EXCEPT ![s] = <<b>> \o @]
              /\ IF Full(s) THEN partial' = <<s>> \o partial /\ st' = [st EXCEPT ![s] = "partial"] ELSE UNCHANGED <<partial, st>>
           /\ Set(Own, "cmp")
        /\ UNCHANGED <<fld, lsz, limit, hfl, sfd, cache, tmp, bad>>
Cmp == LET s == cur[Own] IN
       /\ pc[Own] = "cmp" /\ Set(Own, IF used[s] # lsz[s] THEN "out" ELSE IF used[s] = 0 \/ ~Wait THEN "up" ELSE "sync")
       /\ UNCHANGED <<fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
Sync == LET s == cur[Own] IN
        /\ pc[Own] = "sync" /\ fld[s] # Inv /\ Set(Own, "up")      \* taken and put back
        /\ UNCHANGED <<fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
Up == LET s == cur[Own] IN
      /\ pc[Own] = "up" /\ partial' = Drop(partial, s) /\ cache' = <<s>> \o cache /\ st' = [st EXCEPT ![s] = "kept"] /\ Set(Own, "out")
      /\ UNCHANGED <<fl, fld, lsz, used, limit, hfl, sfd, live, cur, tmp, bad>>
\* ---- the others free
D0(t) == /\ pc[t] = "out" /\ \E b \in live : live' = live \ {b} /\ cur' = [cur EXCEPT ![t] = b]
         /\ Set(t, "lock") /\ UNCHANGED <<fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, tmp, bad>>
D1(t) == LET s == Sp(cur[t]) IN
         /\ pc[t] = "lock" /\ fld[s] # Inv /\ tmp' = [tmp EXCEPT ![t] = <<cur[t]>> \o fld[s]] /\ fld' = [fld EXCEPT ![s] = Inv]
         /\ Set(t, IF CountIn THEN "count" ELSE "store")
         /\ UNCHANGED <<fl, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, bad>>
D2(t) == LET s == Sp(cur[t]) IN
         /\ pc[t] = "count" /\ lsz' = [lsz EXCEPT ![s] = @ + 1]
         /\ Set(t, IF CountIn THEN (IF Once /\ lsz[s] + 1 = B THEN "storeall" ELSE "store") ELSE IF lsz[s] + 1 = B THEN "all" ELSE "out")
         /\ UNCHANGED <<fl, fld, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
D3(t) == LET s == Sp(cur[t]) IN
         /\ pc[t] \in {"store", "storeall"} /\ fld' = [fld EXCEPT ![s] = tmp[t]]
         /\ Set(t, IF ~CountIn THEN "count" ELSE IF pc[t] = "storeall" THEN "all" ELSE IF Once THEN "out" ELSE "look")
         /\ UNCHANGED <<fl, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
D3b(t) == /\ pc[t] = "look" /\ Set(t, IF lsz[Sp(cur[t])] = B THEN "all" ELSE "out")
          /\ UNCHANGED <<fl, fld, lsz, used, limit, st, hfl, partial, sfd, cache, live, cur, tmp, bad>>
D4(t) == LET s == Sp(cur[t]) IN
         /\ pc[t] = "all" /\ sfd' = <<s>> \o sfd /\ bad' = (bad \/ s \in Rng(sfd) \cup Rng(cache)) /\ Set(t, "out") /\ st' = [st EXCEPT ![s] = "kept"]
         /\ UNCHANGED <<fl, fld, lsz, used, limit, hfl, partial, cache, live, cur, tmp>>
Owner == Pop \/ Fall \/ TakeL \/ Sub \/ Put \/ Fin \/ More \/ Free \/ Cmp \/ Sync \/ Up
Next == Owner \/ \E t \in Others : D0(t) \/ D1(t) \/ D2(t) \/ D3(t) \/ D3b(t) \/ D4(t)
Spec == Init /\ [][Next]_vars
\* a block is handed out to one at a time, and only blocks of spans in use
Distinct == ~bad
InUse == \A b \in live : st[Sp(b)] \in {"partial", "full"}
\* between operations every block of a span in use is in exactly one place
Quiet == \A t \in Threads : pc[t] = "out"
Rem(s) == {b \in live : Sp(b) = s}
Heap(s) == {b \in Rng(hfl) : Sp(b) = s}
Sum(s) == Cardinality(Rem(s)) + Cardinality(Heap(s)) + Len(fl[s]) + Len(fld[s])
Places == Quiet => \A s \in Spans : st[s] \in {"partial", "full"} =>
             /\ Sum(s) = limit[s] /\ Rem(s) \cup Heap(s) \cup Rng(fl[s]) \cup Rng(fld[s]) = {10 * s + k : k \in 1..limit[s]}
             /\ lsz[s] = Len(fld[s]) /\ (st[s] = "partial" => used[s] = limit[s] - Len(fl[s]))
Lists == Quiet => Len(sfd) + Len(cache) = Cardinality({s \in Spans : st[s] = "kept"})
=============================================================================
