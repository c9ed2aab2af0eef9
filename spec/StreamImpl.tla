----------------------------- MODULE StreamImpl -----------------------------
(* An endpoint whose reading and writing task share one descriptor and one   *)
(* registration with the loop.  async_write and async_read try the call, and *)
(* wait when there is nothing to be done; several tasks waiting for the same *)
(* descriptor are all woken, and look for themselves.  The other end writes, *)
(* drains, shuts and leaves as it likes.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NOut, NIn, Cap, Chunk, Bad
VARIABLES out, drained, tot, wret,     \* bytes in the pipe to the other end; what it has taken; written so far; result
          inn, fed, ended, got, rret,  \* bytes in the pipe from it; fed so far; it has shut; what was read; last result
          left,                        \* the other end has gone
          reg, pc
vars == <<out, drained, tot, wret, inn, fed, ended, got, rret, left, reg, pc>>
Min(a, b) == IF a < b THEN a ELSE b
NoReg == [on |-> FALSE, bits |-> {}, chain |-> {}]
Init == /\ out = << >> /\ drained = << >> /\ tot = 0 /\ wret = -2 /\ inn = << >> /\ fed = 0 /\ ended = FALSE /\ got = << >> /\ rret = -2 /\ left = FALSE
        /\ reg = NoReg /\ pc = [t \in {"r", "w"} |-> "go"]
Wait(t) == /\ pc' = [pc EXCEPT ![t] = "wait"]
           /\ reg' = IF reg.on /\ Bad # "Replace" THEN [on |-> TRUE, bits |-> reg.bits \cup {t}, chain |-> reg.chain \cup {t}]
                     ELSE [on |-> TRUE, bits |-> {t}, chain |-> {t}]
\* async_write(fd, 1..NOut): until all of it is accepted
Writer ==
  /\ pc["w"] = "go"
  /\ IF tot >= NOut THEN wret' = tot /\ pc' = [pc EXCEPT !["w"] = "done"] /\ UNCHANGED <<out, tot, reg>>
     ELSE IF left THEN wret' = -1 /\ pc' = [pc EXCEPT !["w"] = "done"] /\ UNCHANGED <<out, tot, reg>>
     ELSE IF Len(out) >= Cap THEN Wait("w") /\ (IF Bad = "Again" THEN tot' = 0 ELSE UNCHANGED tot) /\ UNCHANGED <<out, wret>>
     ELSE \E n \in 1..Min(Cap - Len(out), NOut - tot) :
            /\ out' = out \o [k \in 1..n |-> tot + k] /\ tot' = tot + n /\ UNCHANGED reg
            /\ IF Bad = "Short" /\ tot' < NOut THEN wret' = tot' /\ pc' = [pc EXCEPT !["w"] = "done"] ELSE UNCHANGED <<wret, pc>>
  /\ UNCHANGED <<drained, inn, fed, ended, got, rret, left>>
\* async_read again and again, until the end
Reader ==
  /\ pc["r"] = "go"
  /\ IF inn # << >> THEN \E n \in 1..Min(Chunk, Len(inn)) : got' = got \o SubSeq(inn, 1, n) /\ inn' = SubSeq(inn, n + 1, Len(inn)) /\ rret' = n /\ UNCHANGED <<pc, reg>>
     ELSE IF ended \/ left \/ Bad = "Eof" THEN rret' = 0 /\ pc' = [pc EXCEPT !["r"] = "done"] /\ UNCHANGED <<got, inn, reg>>
     ELSE Wait("r") /\ UNCHANGED <<got, inn, rret>>
  /\ UNCHANGED <<out, drained, tot, wret, fed, ended, left>>
\* the loop: readiness of the descriptor; an error alone when the other end has left and nothing fits
Ready == (IF inn # << >> \/ ended \/ left THEN {"r"} ELSE {}) \cup (IF Len(out) < Cap \/ (left /\ Bad # "Err") THEN {"w"} ELSE {})
Poll == /\ reg.on /\ reg.bits \cap Ready # {}
        /\ LET S == IF Bad = "One" THEN {CHOOSE t \in reg.chain : TRUE} ELSE reg.chain IN pc' = [t \in {"r", "w"} |-> IF t \in S THEN "go" ELSE pc[t]]
        /\ reg' = NoReg /\ UNCHANGED <<out, drained, tot, wret, inn, fed, ended, got, rret, left>>
\* the other end
Feed == ~ended /\ ~left /\ fed < NIn /\ Len(inn) < Cap /\ inn' = Append(inn, 100 + fed) /\ fed' = fed + 1 /\ UNCHANGED <<out, drained, tot, wret, ended, got, rret, left, reg, pc>>
Shut == ~ended /\ fed = NIn /\ ended' = TRUE /\ UNCHANGED <<out, drained, tot, wret, inn, fed, got, rret, left, reg, pc>>
Drain == ~left /\ out # << >> /\ drained' = Append(drained, Head(out)) /\ out' = Tail(out) /\ UNCHANGED <<tot, wret, inn, fed, ended, got, rret, left, reg, pc>>
Leave == ~left /\ ended /\ inn = << >> /\ left' = TRUE /\ UNCHANGED <<out, drained, tot, wret, inn, fed, ended, got, rret, reg, pc>>
Next == Writer \/ Reader \/ Poll \/ Feed \/ Shut \/ Drain \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Writer) /\ WF_vars(Reader) /\ WF_vars(Poll) /\ WF_vars(Feed) /\ WF_vars(Shut) /\ WF_vars(Drain)
Written == drained \o out
InOrder == /\ Written = [k \in 1..Len(Written) |-> k] /\ got = [k \in 1..Len(got) |-> 99 + k]
Whole == /\ wret >= 0 => wret = NOut /\ Len(Written) = NOut
         /\ wret = -1 => left
         /\ pc["r"] = "done" => (ended \/ left) /\ Len(got) = fed
Done == <>(pc["r"] = "done" /\ pc["w"] = "done")
=============================================================================
