------------------------------ MODULE DgramImpl ------------------------------
(* A datagram socket shared by several tasks, each of which receives a       *)
(* packet, looks at it and answers it.  udp_recv and udp_send try the call,  *)
(* and wait with the socket's one registration when there is nothing to be   *)
(* done; all who wait are woken and look for themselves.  A packet has its   *)
(* own copy of the message and of the sender's address; the socket has an    *)
(* address too, which receiving and aiming change.  One more task sends to   *)
(* where it has aimed the socket.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Tasks, PerClient, Sizes, Room, Bad
VARIABLES sentBy,     \* client -> what it has sent: sizes
          queue,      \* datagrams at the socket: <<client, k, size>>
          back,       \* client -> datagrams that came to it: <<client, k, size>> as answered
          space,      \* can the system take one more now
          addr,       \* the socket's address
          pc, pkt, dst, \* task: where it is, its packet [c, k, n], where its answer goes
          reg
vars == <<sentBy, queue, back, space, addr, pc, pkt, dst, reg>>
Nobody == 0
NoPkt == [c |-> 0, k |-> 0, n |-> -1]
NoReg == [bits |-> {}, chain |-> {}]
Init == /\ sentBy = [c \in Clients |-> << >>] /\ queue = << >> /\ back = [c \in Clients |-> << >>] /\ space = TRUE /\ addr = Nobody
        /\ pc = [t \in Tasks |-> "recv"] /\ pkt = [t \in Tasks |-> NoPkt] /\ dst = [t \in Tasks |-> Nobody] /\ reg = NoReg
ClientSend(c, n) == /\ Len(sentBy[c]) < PerClient
                    /\ sentBy' = [sentBy EXCEPT ![c] = Append(@, n)] /\ queue' = Append(queue, <<c, Len(sentBy[c]) + 1, n>>)
                    /\ UNCHANGED <<back, space, addr, pc, pkt, dst, reg>>
Wait(t, bit, where) == /\ pc' = [pc EXCEPT ![t] = where]
                       /\ reg' = [bits |-> reg.bits \cup {bit}, chain |-> reg.chain \cup {t}]
Cut(n) == IF Bad = "Trunc" /\ n > Room THEN Room ELSE n
Recv(t) ==
  /\ pc[t] = "recv"
  /\ IF queue = << >> THEN Wait(t, "r", "rwait") /\ UNCHANGED <<queue, addr, pkt>>
     ELSE LET d == Head(queue) IN
          /\ queue' = Tail(queue) /\ addr' = d[1] /\ UNCHANGED reg
          /\ IF Bad = "Empty" /\ d[3] = 0 THEN UNCHANGED <<pc, pkt>>            \* taken for nothing
             ELSE /\ pkt' = [u \in Tasks |-> IF u = t THEN [c |-> d[1], k |-> d[2], n |-> Cut(d[3])]
                                             ELSE IF Bad = "Own" /\ pkt[u].n >= 0 THEN [pkt[u] EXCEPT !.c = d[1], !.k = d[2], !.n = Cut(d[3])]   \* the socket's packet is everybody's
                                             ELSE pkt[u]]
                  /\ pc' = [pc EXCEPT ![t] = "got"]
  /\ UNCHANGED <<sentBy, back, space, dst>>
\* the answer: its address is settled when the call begins
Answer(t) == /\ pc[t] = "got" /\ pc' = [pc EXCEPT ![t] = "send"]
             /\ dst' = [dst EXCEPT ![t] = IF Bad = "Last" THEN addr ELSE pkt[t].c]
             /\ addr' = IF Bad = "Shared" THEN pkt[t].c ELSE addr
             /\ UNCHANGED <<sentBy, queue, back, space, pkt, reg>>
Send(t) ==
  /\ pc[t] = "send"
  /\ IF ~space THEN Wait(t, "w", "swait") /\ UNCHANGED <<back, pkt, dst, space>>
     ELSE LET to == IF Bad = "Shared" THEN addr ELSE dst[t] IN
          /\ back' = [back EXCEPT ![to] = Append(@, <<pkt[t].c, pkt[t].k, pkt[t].n>>)]
          /\ space' = FALSE
          /\ pc' = [pc EXCEPT ![t] = "recv"] /\ pkt' = [pkt EXCEPT ![t] = NoPkt] /\ dst' = [dst EXCEPT ![t] = Nobody] /\ UNCHANGED reg
  /\ UNCHANGED <<sentBy, queue, addr>>
Drain == ~space /\ space' = TRUE /\ UNCHANGED <<sentBy, queue, back, addr, pc, pkt, dst, reg>>
Ready == (IF queue # << >> THEN {"r"} ELSE {}) \cup (IF space THEN {"w"} ELSE {})
Poll == /\ reg.bits \cap Ready # {}
        /\ LET S == IF Bad = "One" THEN {CHOOSE t \in reg.chain : TRUE} ELSE reg.chain IN
           pc' = [t \in Tasks |-> IF t \in S THEN (IF pc[t] = "rwait" THEN "recv" ELSE "send") ELSE pc[t]]
        /\ reg' = NoReg /\ UNCHANGED <<sentBy, queue, back, space, addr, pkt, dst>>
Next == (\E c \in Clients, n \in Sizes : ClientSend(c, n)) \/ (\E t \in Tasks : Recv(t) \/ Answer(t) \/ Send(t)) \/ Drain \/ Poll
Spec == Init /\ [][Next]_vars /\ WF_vars(Drain) /\ WF_vars(Poll) /\ \A t \in Tasks : WF_vars(Recv(t)) /\ WF_vars(Answer(t)) /\ WF_vars(Send(t))
\* what a client hears is what it sent, whole, each once
Own == \A c \in Clients : \A i \in 1..Len(back[c]) :
         LET d == back[c][i] IN d[1] = c /\ d[2] \in 1..Len(sentBy[c]) /\ d[3] = sentBy[c][d[2]] /\ \A j \in 1..(i - 1) : back[c][j][2] # d[2]
\* a packet is what arrived
Packet == \A t \in Tasks : pkt[t].n >= 0 => sentBy[pkt[t].c][pkt[t].k] = pkt[t].n /\ \A u \in Tasks \ {t} : pkt[u].n >= 0 => <<pkt[u].c, pkt[u].k>> # <<pkt[t].c, pkt[t].k>>
Answered == \A c \in Clients : (Len(sentBy[c]) = PerClient) ~> (Len(back[c]) = PerClient)
=============================================================================
