------------------------------ MODULE MC_Loop ------------------------------
(***************************************************************************)
(* The main loop as a state machine: in every step the wave speed is any of *)
(* a few, and the step may fail.  Whatever happens, the returned history is *)
(* the one that a user relies on.                                           *)
(***************************************************************************)
EXTENDS Loop

CONSTANTS SmallH,      \* places in the history
          Speeds,      \* wave speeds of a step
          MaxSteps,
          NoRoom       \* faulty design: a failed run writes after its snapshots wherever that is

VARIABLES s, times, over, hist
vars == << s, times, over, hist >>
Tf == F1

Init == s = Start /\ times = << F0 >> /\ over = "no" /\ hist = << >>
Dt(v) == TimeStep({ << FI(v) >> }, << F1 >>, F1, s.t, Tf, s.count)
FailedRun(z) == IF NoRoom THEN Put(Put(z.hist, z.push, z.count - 1), z.push + 1, z.count) ELSE Failed(z)
Step(v, ok) ==
  /\ over = "no" /\ ~Finished(s, Tf) /\ s.count < MaxSteps
  /\ s' = After(s, Dt(v), Tf)
  /\ times' = Append(times, s'.t)
  /\ over' = IF ok THEN "no" ELSE "failed"
  /\ hist' = IF ok THEN << >> ELSE FailedRun(s')
End ==
  /\ over = "no" /\ Finished(s, Tf)
  /\ over' = "ended" /\ hist' = Ended(s)
  /\ UNCHANGED << s, times >>
Next == (\E v \in Speeds, ok \in BOOLEAN : Step(v, ok)) \/ End
Spec == Init /\ [][Next]_vars

At_(n) == times[n + 1]                         \* the time after n steps
Due(p, n) == FLe((FI(p + 1) (/) FI(H)) (.) Tf, At_(n))
\* the step whose state belongs in place p (none: -1), as the statement of the property has it
RECURSIVE Snapshot(_)
Snapshot(p) ==
  LET after == IF p = 0 THEN 0 ELSE Snapshot(p - 1)
      ns == { n \in 1..s.count : n > after /\ Due(p, n) }
  IN IF after = -1 \/ ns = {} THEN -1 ELSE CHOOSE n \in ns : \A q \in ns : n <= q

InTime == \A n \in 0..s.count : FLe(At_(n), Tf)
Forward == \A n \in 1..s.count : FLt(At_(n - 1), At_(n))
Room == DOMAIN hist \subseteq 0..(H - 1)
EndedHistory ==
  over = "ended" =>
    /\ FEq(At_(s.count), Tf) /\ hist[H - 1] = s.count
    /\ \A p \in 0..(H - 2) : IF p \in DOMAIN hist THEN hist[p] = Snapshot(p) ELSE Snapshot(p) = -1
FailedHistory ==
  over = "failed" =>
    LET last == CHOOSE p \in DOMAIN hist : \A q \in DOMAIN hist : q <= p
    IN /\ hist[last] = s.count /\ hist[last - 1] = s.count - 1
       /\ DOMAIN hist = 0..last
       /\ \A p \in 0..(last - 2) : hist[p] = Snapshot(p)
       \* the two come right after the snapshots, where there is room for them
       /\ (last < H - 1 => Snapshot(last - 1) = -1)
\* at most one snapshot per step, and none is missed for good: the places fill up in order
Contiguous == DOMAIN s.hist = 0..(s.push - 1) /\ \A p \in 1..(s.push - 1) : s.hist[p - 1] < s.hist[p]
=============================================================================
