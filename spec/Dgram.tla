------------------------------- MODULE Dgram -------------------------------
(* Datagrams between sockets.  A message is sent by one socket to the        *)
(* address of another (or of none); it arrives there once, whole, with the   *)
(* sender's address, or not at all.  What the system has handed over to a    *)
(* task's receive call is what that call gives.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES adr,    \* socket -> its address (number of the socket)
          ip,     \* address -> its host
          con,    \* socket -> the only address it takes messages from, 0: any
          aim,    \* socket -> where what it sends goes, 0: nowhere, -1: not known
          msg,    \* message -> [from, to, n]: from, to addresses; n length
          st,     \* message -> "call" (send under way), "out", "err" (refused), "in" (received), "over" (received before the sender was told)
          pkt,    \* packet (as received) -> message
          rcv     \* sockets with a receive under way -> number of tasks
dvars == <<adr, ip, con, aim, msg, st, pkt, rcv>>
Max == 65507
DInit == adr = << >> /\ ip = << >> /\ con = << >> /\ aim = << >> /\ msg = << >> /\ st = << >> /\ pkt = << >> /\ rcv = << >>
Socket(s, a, i, c) == /\ s \notin DOMAIN adr /\ a \notin DOMAIN ip
                      /\ adr' = (s :> a) @@ adr /\ ip' = (a :> i) @@ ip /\ con' = (s :> c) @@ con /\ aim' = (s :> c) @@ aim /\ rcv' = (s :> 0) @@ rcv
                      /\ UNCHANGED <<msg, st, pkt>>
Aim(s, a) == aim' = [aim EXCEPT ![s] = a] /\ UNCHANGED <<adr, ip, con, msg, st, pkt, rcv>>
SendTo(m, s, to, n) == /\ m \notin DOMAIN msg
                       /\ msg' = (m :> [from |-> adr[s], to |-> to, n |-> n]) @@ msg /\ st' = (m :> "call") @@ st
                       /\ UNCHANGED <<adr, ip, con, aim, pkt, rcv>>
\* to where the socket is aimed at this moment
Send(m, s, n) == aim[s] >= 0 /\ SendTo(m, s, aim[s], n)
\* a reply goes to whoever sent the packet
Reply(m, s, p, n) == SendTo(m, s, msg[pkt[p]].from, n)
\* sent: all of it, or an error (too long, or nowhere to send it to)
Sent(m, r) == /\ m \in DOMAIN msg /\ st[m] \in {"call", "over"}
              /\ IF r = msg[m].n THEN st' = [st EXCEPT ![m] = IF @ = "call" THEN "out" ELSE "in"]
                 ELSE r = -1 /\ st[m] = "call" /\ (msg[m].n > Max \/ msg[m].to = 0) /\ st' = [st EXCEPT ![m] = "err"]
              /\ UNCHANGED <<adr, ip, con, aim, msg, pkt, rcv>>
Asked(s) == rcv' = [rcv EXCEPT ![s] = @ + 1] /\ UNCHANGED <<adr, ip, con, aim, msg, st, pkt>>
\* the message m is at hand at socket s
Here(m, s) == /\ m \in DOMAIN msg /\ st[m] \in {"call", "out"} /\ msg[m].n <= Max /\ msg[m].to = adr[s]
              /\ (IF con[s] = 0 THEN TRUE ELSE con[s] = msg[m].from)
Cut(m, r, n) == r = (IF msg[m].n < n THEN msg[m].n ELSE n)
Told(m, f) == IF f = 0 THEN TRUE ELSE f = ip[msg[m].from]
\* the message m is received at s: r bytes of it, room for n; f: the sender's host as told (0: not told); p: the packet (-1: bytes only)
Got(s, m, r, n, f, p) ==
  /\ rcv[s] > 0 /\ rcv' = [rcv EXCEPT ![s] = @ - 1]
  /\ Here(m, s) /\ Cut(m, r, n) /\ Told(m, f)
  /\ st' = [st EXCEPT ![m] = IF @ = "call" THEN "over" ELSE "in"]
  /\ IF p >= 0 THEN pkt' = (p :> m) @@ pkt /\ aim' = [aim EXCEPT ![s] = -1] ELSE UNCHANGED <<pkt, aim>>
  /\ UNCHANGED <<adr, ip, con, msg>>
\* looked at without being taken
Peeked(s, m, r, n) == rcv[s] > 0 /\ rcv' = [rcv EXCEPT ![s] = @ - 1] /\ Here(m, s) /\ Cut(m, r, n) /\ UNCHANGED <<adr, ip, con, aim, msg, st, pkt>>
\* the packet looked at again: still that message
Look(p, m, r, f) == p \in DOMAIN pkt /\ pkt[p] = m /\ r = msg[m].n /\ Told(m, f) /\ UNCHANGED dvars
\* what the system has handed over is received: nothing is thrown away
Handed(n) == Cardinality({m \in DOMAIN st : st[m] \in {"in", "over"}}) = n /\ (\A s \in DOMAIN rcv : rcv[s] = 0) /\ (\A m \in DOMAIN st : st[m] # "call") /\ UNCHANGED dvars
=============================================================================
