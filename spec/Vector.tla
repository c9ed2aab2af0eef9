------------------------------ MODULE Vector ------------------------------
(* Dynamic arrays (include/arrays.h, src/arrays.c) as finite sequences.      *)
(* A handle holds a sequence of values, a flag "frozen" ($tuple) and a       *)
(* capacity that is never smaller than the length.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Handle, Value, MaxLen, MaxCap
(* the capacities an allocation may end up with; a trace supplies the real one *)
Caps == 0..MaxCap
VARIABLES live, frozen, seq, cap, thrown

vars == <<live, frozen, seq, cap, thrown>>

Init == /\ live = [h \in Handle |-> FALSE]
        /\ frozen = [h \in Handle |-> FALSE]
        /\ seq = [h \in Handle |-> <<>>]
        /\ cap = [h \in Handle |-> 0]
        /\ thrown = FALSE

Drop1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))   \* without element i (1-based)

New(h, s) == /\ ~live[h]
             /\ live' = [live EXCEPT ![h] = TRUE]
             /\ frozen' = [frozen EXCEPT ![h] = FALSE]
             /\ seq' = [seq EXCEPT ![h] = s]
             /\ \E c \in Caps : c >= Len(s) /\ cap' = [cap EXCEPT ![h] = c]
             /\ thrown' = FALSE

Copy(h, g) == /\ ~live[h] /\ live[g]
              /\ live' = [live EXCEPT ![h] = TRUE]
              /\ frozen' = [frozen EXCEPT ![h] = frozen[g]]
              /\ seq' = [seq EXCEPT ![h] = seq[g]]
              /\ \E c \in Caps : c >= Len(seq[g]) /\ cap' = [cap EXCEPT ![h] = c]
              /\ thrown' = FALSE

(* a mutation of a frozen array changes nothing and reports a logic error *)
Refuse(h) == /\ live[h] /\ frozen[h]
             /\ thrown' = TRUE
             /\ UNCHANGED <<live, frozen, seq, cap>>

Mutate(h, s) == /\ live[h] /\ ~frozen[h]
                /\ seq' = [seq EXCEPT ![h] = s]
                /\ thrown' = FALSE
                /\ UNCHANGED <<live, frozen>>

Append1(h, v) == \/ Refuse(h)
                 \/ /\ Mutate(h, Append(seq[h], v))
                    /\ IF cap[h] > Len(seq[h]) THEN UNCHANGED cap
                       ELSE \E c \in Caps : c > Len(seq[h]) /\ cap' = [cap EXCEPT ![h] = c]
Remove(h, i) == \/ Refuse(h)
                \/ /\ Mutate(h, IF i < Len(seq[h]) THEN Drop1(seq[h], i + 1) ELSE seq[h])
                   /\ UNCHANGED cap
Pop(h)   == \/ Refuse(h)
            \/ /\ Mutate(h, IF seq[h] = <<>> THEN <<>> ELSE SubSeq(seq[h], 1, Len(seq[h]) - 1))
               /\ UNCHANGED cap
Shift(h) == \/ Refuse(h)
            \/ /\ Mutate(h, IF seq[h] = <<>> THEN <<>> ELSE Tail(seq[h]))
               /\ UNCHANGED cap
Reset(h) == \/ Refuse(h)
            \/ Mutate(h, <<>>) /\ UNCHANGED cap
Freeze(h) == /\ live[h]
             /\ frozen' = [frozen EXCEPT ![h] = TRUE]
             /\ thrown' = FALSE
             /\ UNCHANGED <<live, seq, cap>>
Reserve(h, n) == /\ live[h]
                 /\ IF n <= cap[h] THEN UNCHANGED cap
                    ELSE \E c \in Caps : c >= n /\ cap' = [cap EXCEPT ![h] = c]
                 /\ thrown' = FALSE
                 /\ UNCHANGED <<live, frozen, seq>>
(* storing through the index operator is not guarded by the library *)
Store(h, i, v) == /\ live[h] /\ i < Len(seq[h])
                  /\ seq' = [seq EXCEPT ![h] = [@ EXCEPT ![i + 1] = v]]
                  /\ thrown' = FALSE
                  /\ UNCHANGED <<live, frozen, cap>>
Sort(h, s) == /\ live[h]
              /\ Len(s) = Len(seq[h])
              /\ \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
              /\ \A j \in 1..Len(s) : Cardinality({k \in 1..Len(s) : s[k] = s[j]})
                                       = Cardinality({k \in 1..Len(s) : seq[h][k] = s[j]})
              /\ seq' = [seq EXCEPT ![h] = s]
              /\ thrown' = FALSE
              /\ UNCHANGED <<live, frozen, cap>>
Drop(h) == /\ live[h]
           /\ live' = [live EXCEPT ![h] = FALSE]
           /\ frozen' = [frozen EXCEPT ![h] = FALSE]
           /\ seq' = [seq EXCEPT ![h] = <<>>]
           /\ cap' = [cap EXCEPT ![h] = 0]
           /\ thrown' = FALSE

Next == \E h \in Handle :
          \/ \E s \in UNION {[1..n -> Value] : n \in 0..2} : New(h, s)
          \/ \E g \in Handle : Copy(h, g)
          \/ \E v \in Value : Append1(h, v) \/ \E i \in 0..MaxLen : Store(h, i, v)
          \/ \E i \in 0..MaxLen : Remove(h, i)
          \/ Pop(h) \/ Shift(h) \/ Reset(h) \/ Freeze(h) \/ Drop(h)
          \/ \E n \in 0..MaxCap : Reserve(h, n)

Spec == Init /\ [][Next]_vars

Bounded == \A h \in Handle : Len(seq[h]) <= MaxLen

TypeOK == /\ \A h \in Handle : cap[h] >= Len(seq[h])
          /\ \A h \in Handle : ~live[h] => seq[h] = <<>>

(* nothing but a store through the index operator (same length) or dropping *)
(* the handle changes a frozen array, and only refused calls raise          *)
FrozenFixed == [][\A h \in Handle : (live[h] /\ frozen[h] /\ live'[h]) =>
                     /\ Len(seq'[h]) = Len(seq[h])
                     /\ Cardinality({i \in 1..Len(seq[h]) : seq'[h][i] # seq[h][i]}) <= 1]_vars
ThrownOnlyFrozen == [][thrown' => \E h \in Handle : live[h] /\ frozen[h]]_vars
(* operations on one handle never change another *)
Isolation == [][Cardinality({h \in Handle : seq'[h] # seq[h]}) <= 1]_vars
=============================================================================
