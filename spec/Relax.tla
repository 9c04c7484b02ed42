------------------------------- MODULE Relax -------------------------------
(***************************************************************************)
(* The relaxation half of the split scheme as an initial value problem: the *)
(* state moves along its source term.                                       *)
(***************************************************************************)
EXTENDS GPR

WithA(Q, a) == SubSeq(Q, 1, 5) \o a \o SubSeq(Q, 15, NV)
DistRate(m, Q) == VScale(FNeg(Cs2(m, Q[1]) (.) Theta1Inv(m, Q)), Flat(AdevG(Dist(Q))))

\* size of the distortion: deviator of the metric at unit determinant
UnitMetric(A) == MScale(F1 (/) FPow(FAbs(MDet3(A)), FQ(2, 3)), Metric(A))
Skew(A) == FSqrt(FrobSq(Dev(UnitMetric(A))))

\* one Runge-Kutta step of the distortion
RKStep(m, Q, h) ==
  LET a == SubSeq(Q, 6, 14)
      k1 == DistRate(m, Q)
      k2 == DistRate(m, WithA(Q, VAxpy(Half (.) h, k1, a)))
      k3 == DistRate(m, WithA(Q, VAxpy(Half (.) h, k2, a)))
      k4 == DistRate(m, WithA(Q, VAxpy(h, k3, a)))
      s == VAdd(VAdd(k1, k4), VScale(F2, VAdd(k2, k3)))
  IN WithA(Q, VAxpy(h (/) FI(6), s, a))

\* relative rate at which the distortion relaxes
RateAt(m, Q) == VMaxAbs(DistRate(m, Q)) (/) FMax(MMaxAbs(Dev(Metric(Dist(Q)))), FS("1e-300"))
Stiff(m, Q) ==
  IF ~m.SOLID /\ m.BINGHAM
  THEN LET sn == FrobNorm(Sigma(m, Q)) IN FMin(sn (/) (sn (-) m.sigY), FI(30))
  ELSE IF m.POWER_LAW THEN FMax(m.n, F1) ELSE F1

RECURSIVE Advance(_, _, _, _, _)
Advance(m, Q, t, T, floor) ==
  IF ~FLt(t, T) \/ ~FLt(floor, Skew(Dist(Q))) THEN Q
  ELSE LET r == RateAt(m, Q) IN
       IF ~FLt(F0, r) THEN Q
       ELSE LET h == FMin(FS(".15") (/) (r (.) Stiff(m, Q)), T (-) t)
            IN Advance(m, RKStep(m, Q, h), IF FEq(h, T (-) t) THEN T ELSE t (+) h, T, floor)
\* the distortion after a time T (once negligible, it is left alone)
Relaxed1(m, Q, T) == Advance(m, Q, F0, T, FS("1e-4") (.) Skew(Dist(Q)))

\* d|J|^2/dt = -2 cal2 T / (kappa rho) |J|^2 where cv T + cal2/2 |J|^2 is constant: exact factor of J
ImpulseFactor(m, Q, T) ==
  LET J2 == VDot(Imp(Q), Imp(Q))
      c2 == m.cal2 (/) F2
      k == (F2 (.) m.cal2) (/) (m.kappa (.) (Q[1] (.) m.cv))
      c1 == (m.cv (.) Temperature1(m, Q)) (+) (c2 (.) J2)
      ea == FExp(FNeg((k (.) c1) (.) T))
  IN FSqrt(ea (/) (F1 (-) (((c2 (.) J2) (/) c1) (.) (F1 (-) ea))))
=============================================================================
