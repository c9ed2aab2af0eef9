---------------------------- MODULE TraceBatch ----------------------------
(* Shared by every trace specification: a batch of recorded traces, one per  *)
(* line of the file named by the environment variable TRACES, each a record  *)
(* [id, seed, cfg, ev].  A behaviour picks a trace (tid) and consumes it     *)
(* event by event (l = index of the next event).  A trace is accepted when   *)
(* some behaviour reaches its end.  Works with non-deterministic trace       *)
(* specifications: register 1000+tid holds the furthest position reached.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

TB_Init == /\ tid \in 1..Len(Traces)
           /\ l = 1

Ev    == Traces[tid].ev
Cfg   == Traces[tid].cfg
More  == l <= Len(Ev)
Cur   == Ev[l]

(* the next event has this name; consume it *)
IsEv(name) == /\ More
              /\ Cur.e = name
              /\ l' = l + 1
              /\ UNCHANGED tid

ASSUME \A t \in 1..Len(Traces) : TLCSet(1000 + t, 0)

(* as a CONSTRAINT: records progress, always true *)
Progress == IF l > TLCGet(1000 + tid) THEN TLCSet(1000 + tid, l) ELSE TRUE

Rejected == {t \in 1..Len(Traces) : TLCGet(1000 + t) <= Len(Traces[t].ev)}

(* as a POSTCONDITION *)
TraceAccepted == /\ \A t \in Rejected : PrintT(<<"REJECTED", t, TLCGet(1000 + t)>>)
                 /\ Rejected = {}
=============================================================================
