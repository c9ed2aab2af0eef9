------------------------------ MODULE CopyImpl ------------------------------
(* Copying a file with sendfile: each call transfers some of what is left,  *)
(* and moves the position on; somebody may cut the source meanwhile.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Bad
VARIABLES src, size, pos, out, pc, cuts
vars == <<src, size, pos, out, pc, cuts>>
Init == \E n \in 0..N : src = [k \in 1..n |-> k] /\ size = n /\ pos = 0 /\ out = << >> /\ pc = "loop" /\ cuts = 1
Left == IF Len(src) > pos THEN Len(src) - pos ELSE 0
Step == /\ pc = "loop" /\ UNCHANGED <<src, size, cuts>>
        /\ IF pos >= size THEN pc' = "done" /\ UNCHANGED <<pos, out>>
           ELSE IF Left = 0 THEN pc' = (IF Bad = "Spin" THEN "loop" ELSE "done") /\ UNCHANGED <<pos, out>>
           ELSE \E m \in 1..Left : pos' = pos + (IF Bad = "Twice" THEN 2 * m ELSE m) /\ out' = out \o SubSeq(src, pos + 1, pos + m) /\ UNCHANGED pc
Cut == pc = "loop" /\ cuts > 0 /\ cuts' = cuts - 1 /\ (\E n \in pos..Len(src) : src' = SubSeq(src, 1, n)) /\ UNCHANGED <<size, pos, out, pc>>
Next == Step \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Same == pc = "done" => out = src
Prefix == out = SubSeq(src, 1, Len(out)) 
Ends == <>(pc = "done")
=============================================================================
