-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The main loop: choice of the time step, maintenance of the distortion,  *)
(* and the history that a run returns.                                     *)
(***************************************************************************)
EXTENDS Multi

CONSTANT ROTATE

H == 100        \* places in the history, numbered 0 .. H-1

----------------------------------------------------------------------------
(* The time step.  lam[m][k][d]: wave speed of material m in cell k along d *)
RateOf(lam, dX) == FSumOf(LAMBDA d : lam[d] (/) dX[d], 1, Len(dX))
RECURSIVE MaxOver(_)
MaxOver(S) == LET x == CHOOSE y \in S : TRUE
              IN IF S = {x} THEN x ELSE FMax(x, MaxOver(S \ {x}))
TimeStep(lams, dX, cfl, t, tf, count) ==     \* lams: the wave speeds of all cells that count
  LET full == IF lams = {} THEN cfl (/) F0 ELSE cfl (/) MaxOver({ RateOf(l, dX) : l \in lams })
      dt == IF count <= 5 THEN full (/) FI(5) ELSE full
  IN IF FLt(tf, t (+) dt) THEN tf (-) t ELSE dt

----------------------------------------------------------------------------
(* Maintenance *)
Limited(Q) == IF MULTI THEN [Q EXCEPT ![LamIx] = FMax(FMin(@, Q[1]), F0)] ELSE Q
WithDist(Q, a) == SubSeq(Q, 1, 5) \o a \o SubSeq(Q, 15, NV)
Rescaled(m, Q) ==
  IF m.EOS = VACUUM \/ ~FLt(F0, Q[1]) THEN Q
  ELSE WithDist(Q, VScale(FCbrt(Q[1] (/) (m.rho0 (.) MDet3(Dist(Q)))), SubSeq(Q, 6, 14)))
\* how far the metric is from isotropy: mean of its eigenvalues at unit determinant, less one
Strain(Q) ==
  LET A == Dist(Q)
      d == FAbs(MDet3(A))
  IN (VDot(SubSeq(Q, 6, 14), SubSeq(Q, 6, 14)) (/) (F3 (.) FPow(d, FQ(2, 3)))) (-) F1
Relaxed(m, Q) ==
  IF m.EOS = VACUUM THEN Q
  ELSE LET c == FCbrt(Q[1] (/) m.rho0)
           R == WithDist(Q, Flat(MScale(c, MId(3))))
       IN [R EXCEPT ![2] = Q[2] (-) (Q[1] (.) E2A(m, Q[1], Dist(Q)))]

----------------------------------------------------------------------------
(* The history as a state machine over the steps of a run: hist maps places *)
(* to step numbers.                                                         *)
Start == [t |-> F0, count |-> 0, push |-> 0, hist |-> << >>]
\* place p of a history, 0-based
Put(h, p, s) == [q \in (DOMAIN h) \cup {p} |-> IF q = p THEN s ELSE h[q]]
After(s, dt, tf) ==
  LET t == s.t (+) dt
      n == s.count + 1
      due == FLe((FI(s.push + 1) (/) FI(H)) (.) tf, t)
  IN [t |-> t, count |-> n, push |-> IF due THEN s.push + 1 ELSE s.push,
      hist |-> IF due THEN Put(s.hist, s.push, n) ELSE s.hist]
Finished(s, tf) == ~FLt(s.t, tf)
\* the history of a run that reached its end, and of one whose last step failed
Ended(s) == Put(s.hist, H - 1, s.count)
Failed(s) ==
  LET p == IF s.push > H - 2 THEN H - 2 ELSE s.push
  IN Put(Put(s.hist, p, s.count - 1), p + 1, s.count)
=============================================================================
