------------------------------- MODULE Stream -------------------------------
(* Byte streams between endpoints.  What endpoint a writes is its stream a;  *)
(* its peer reads that stream from the start, in order, and its end only     *)
(* when a has stopped writing.  Which accepted endpoint belongs to which     *)
(* connecting one is not known until data, its end, or the port tells.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES w,      \* endpoint -> bytes written (accepted for certain)
          wp,     \* endpoint -> size of the write under way, -1: none
          rd,     \* endpoint -> bytes read
          rp,     \* endpoint -> size of the read under way, -1: none
          shut,   \* endpoints that will write no more
          gone,   \* endpoints that will read no more either
          bad,    \* endpoints with a failed write: what of it arrives is not known
          peer,   \* endpoint -> endpoint
          kind    \* endpoint -> [side: "c" (connecting) / "a" (accepted) / "x", srv, port]
svars == <<w, wp, rd, rp, shut, gone, bad, peer, kind>>
SInit == w = << >> /\ wp = << >> /\ rd = << >> /\ rp = << >> /\ shut = {} /\ gone = {} /\ bad = {} /\ peer = << >> /\ kind = << >>
Ends == DOMAIN w
Fresh(S) == S \cap Ends = {}
Add(f, S, v) == [e \in DOMAIN f \cup S |-> IF e \in S THEN v ELSE f[e]]
More1(S) == Fresh(S) /\ w' = Add(w, S, 0) /\ wp' = Add(wp, S, -1) /\ rd' = Add(rd, S, 0) /\ rp' = Add(rp, S, -1) /\ UNCHANGED <<shut, gone, bad>>
\* a pair made at once (pipe, socketpair)
Linked(a, b) == More1({a, b}) /\ peer' = (a :> b) @@ (b :> a) @@ peer /\ kind' = Add(kind, {a, b}, [side |-> "x", srv |-> 0, port |-> 0])
\* a connecting endpoint is there from the request on; what became of it is told later
Connecting(e, s) == More1({e}) /\ kind' = Add(kind, {e}, [side |-> "c", srv |-> s, port |-> 0]) /\ UNCHANGED peer
PortOk(a, c) == kind[a].port = 0 \/ kind[c].port = 0 \/ kind[a].port = kind[c].port
Connected(e, p) == /\ e \in Ends /\ kind' = [kind EXCEPT ![e].port = p] /\ UNCHANGED <<w, wp, rd, rp, shut, gone, bad, peer>>
                   /\ (IF e \in DOMAIN peer THEN p = 0 \/ kind[peer[e]].port = 0 \/ kind[peer[e]].port = p ELSE TRUE)
Accepted(e, s, p) == More1({e}) /\ kind' = Add(kind, {e}, [side |-> "a", srv |-> s, port |-> p]) /\ UNCHANGED peer
\* no server listens: refused
Refused(e) == e \in Ends /\ kind[e].srv < 0 /\ e \notin DOMAIN peer /\ kind' = [kind EXCEPT ![e].side = "r"] /\ UNCHANGED <<w, wp, rd, rp, shut, gone, bad, peer>>
Mates(e) == IF e \in DOMAIN peer THEN {peer[e]}
            ELSE {x \in Ends : x \notin DOMAIN peer /\ kind[x].srv = kind[e].srv /\ kind[x].side # kind[e].side /\ {kind[x].side, kind[e].side} = {"a", "c"}
                               /\ (IF kind[e].side = "a" THEN PortOk(e, x) ELSE PortOk(x, e))}
Pair(e, x) == peer' = IF e \in DOMAIN peer THEN peer ELSE (e :> x) @@ (x :> e) @@ peer
WCall(e, n) == e \in Ends /\ wp[e] = -1 /\ e \notin shut /\ wp' = [wp EXCEPT ![e] = n] /\ UNCHANGED <<w, rd, rp, shut, gone, bad, peer, kind>>
WRet(e, r) == /\ e \in Ends /\ wp[e] >= 0 /\ wp' = [wp EXCEPT ![e] = -1]
              /\ IF r >= 0 THEN r = wp[e] /\ w' = [w EXCEPT ![e] = @ + r] /\ UNCHANGED <<bad, peer>>
                 ELSE /\ bad' = bad \cup {e} /\ UNCHANGED w               \* nobody is going to read it
                      /\ \E x \in Mates(e) : x \in gone /\ Pair(e, x)
              /\ UNCHANGED <<rd, rp, shut, gone, kind>>
RCall(e, n) == e \in Ends /\ rp[e] = -1 /\ rp' = [rp EXCEPT ![e] = n] /\ UNCHANGED <<w, wp, rd, shut, gone, bad, peer, kind>>
Sent(x) == w[x] + (IF wp[x] > 0 THEN wp[x] ELSE 0)
RECURSIVE Joined(_, _, _)
Joined(sg, x, at) == IF sg = << >> THEN at ELSE IF Head(sg)[1] = x /\ Head(sg)[2] = at /\ Head(sg)[3] > 0 THEN Joined(Tail(sg), x, at + Head(sg)[3]) ELSE -1
RRet(e, r, sg) ==
  /\ e \in Ends /\ rp[e] >= 0 /\ rp' = [rp EXCEPT ![e] = -1]
  /\ IF rp[e] = 0 /\ r = 0 THEN UNCHANGED <<rd, peer>>
     ELSE \E x \in Mates(e) :
       /\ Pair(e, x)
       /\ IF r > 0 THEN /\ r <= rp[e] /\ Joined(sg, x, rd[e]) = rd[e] + r /\ (IF x \in bad THEN TRUE ELSE rd[e] + r <= Sent(x))
                        /\ rd' = [rd EXCEPT ![e] = @ + r]
          ELSE IF r = 0 THEN (x \in shut /\ wp[x] = -1 /\ (IF x \in bad THEN TRUE ELSE rd[e] = w[x])) /\ UNCHANGED rd
          ELSE x \in gone /\ rd[x] < Sent(e) /\ UNCHANGED rd              \* the connection is broken: the other end left, with data unread
  /\ UNCHANGED <<w, wp, shut, gone, bad, kind>>
Shut(e) == e \in Ends /\ wp[e] = -1 /\ shut' = shut \cup {e} /\ UNCHANGED <<w, wp, rd, rp, gone, bad, peer, kind>>
Close(e) == e \in Ends /\ wp[e] = -1 /\ rp[e] = -1 /\ shut' = shut \cup {e} /\ gone' = gone \cup {e} /\ UNCHANGED <<w, wp, rd, rp, bad, peer, kind>>
\* what cannot be waited for: an error, or for a plain file what there is
Odd(k, r, n) == r = (IF k = "file" THEN n ELSE -1) /\ UNCHANGED svars
\* everything has ended: nothing is under way
Over == (\A e \in Ends : wp[e] = -1 /\ rp[e] = -1) /\ UNCHANGED svars
=============================================================================
