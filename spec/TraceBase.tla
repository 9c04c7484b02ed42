----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checks a trace recorded from the implementation against a specification *)
(* of its events.  Faults(e) is the set of the requirements that event e   *)
(* breaks; the trace is a behaviour of the specification iff no event has  *)
(* faults.  The trace is cut into NC chunks so that TLC's workers share it.*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Faults(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
NC == 64

VARIABLES chunk, pos        \* the chunk, and the position in the trace (0: none)

Init == chunk \in 0..(NC - 1) /\ pos = 0
Next == /\ pos = 0
        /\ \E k \in 0..(Len(Trace) \div NC) :
             /\ k * NC + chunk + 1 <= Len(Trace)
             /\ pos' = k * NC + chunk + 1
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, pos>>

\* requirement s is broken unless b
Req(s, b) == IF b THEN {} ELSE {s}

\* a call that crashed, hung or raised an error has no place in any behaviour
Abnormal(e) == e.ev \in {"crash", "exception"}

Accepted ==
  pos = 0 \/ LET f == IF Abnormal(Trace[pos]) THEN {Trace[pos].what} ELSE Faults(Trace[pos])
           IN f = {} \/ ~PrintT(<<"REJECTED", pos, f>>)
=============================================================================
