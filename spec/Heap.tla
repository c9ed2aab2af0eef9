-------------------------------- MODULE Heap --------------------------------
(* Contract of the allocator.  live: block -> [a (address), n (requested),   *)
(* us (usable)].  A block given to free, or being resized, may be handed out *)
(* again from that moment.                                                   *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES live, held      \* held: blocks that are being resized
hvars == <<live, held>>
HInit == live = << >> /\ held = << >>
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Disjoint(a, n) == \A i \in DOMAIN live : a + n <= live[i].a \/ live[i].a + live[i].us <= a
Block(a, n, us, al) == a >= 0 /\ us >= n /\ (al > 0 => a % al = 0) /\ Disjoint(a, IF us > 0 THEN us ELSE 1)
New(id, a, n, us, al) ==
    /\ id \notin DOMAIN live \cup DOMAIN held /\ Block(a, n, us, al)
    /\ live' = (id :> [a |-> a, n |-> n, us |-> IF us > 0 THEN us ELSE 1]) @@ live /\ UNCHANGED held
Free(id) == id \in DOMAIN live /\ live' = Drop(live, id) /\ UNCHANGED held
Resize(id) == id \in DOMAIN live /\ held' = (id :> live[id]) @@ held /\ live' = Drop(live, id)
\* resized: the contents up to the smaller size are still there
Resized(id, a, n, us, al, keep, good) ==
    /\ id \in DOMAIN held /\ Block(a, n, us, al) /\ good >= keep
    /\ live' = (id :> [a |-> a, n |-> n, us |-> us]) @@ live /\ held' = Drop(held, id)
\* refused: nothing changed
Kept(id, n, good) == id \in DOMAIN held /\ held[id].n = n /\ good = n /\ Disjoint(held[id].a, held[id].us)
                     /\ live' = (id :> held[id]) @@ live /\ held' = Drop(held, id)
Holds_(id, good) == id \in DOMAIN live /\ good = live[id].n /\ UNCHANGED hvars
=============================================================================
