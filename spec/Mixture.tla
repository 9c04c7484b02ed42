------------------------------ MODULE Mixture ------------------------------
(***************************************************************************)
(* Reactive mixtures of two phases.  At a given density, energy and mass   *)
(* fraction lam of the first phase, the pressure p and the densities r1,   *)
(* r2 of the phases are those at which the temperatures of the phases are  *)
(* equal, their volumes add up, and their energies add up.  Out of that,   *)
(* the variables of a mixture, the rate of its reaction, and the reaction  *)
(* of a cell over a time.                                                  *)
(***************************************************************************)
EXTENDS GPR

\* pressure at which phases of densities r1, r2 have the energy
Shared(m, Q, r1, r2) ==
  LET lam == Lam(Q)  mu == F1 (-) lam
      e0 == (lam (.) EofRP(m, r1, F0)) (+) (mu (.) EofRP(m.MP2, r2, F0))
      s == (lam (/) (r1 (.) Gru(m, r1))) (+) (mu (/) (r2 (.) Gru(m.MP2, r2)))
  IN (MicroEnergy(m, Q) (-) e0) (/) s

Other(Q, r1) == (F1 (-) Lam(Q)) (/) ((F1 (/) Q[1]) (-) (Lam(Q) (/) r1))

Gap(m, Q, a) ==        \* temperature difference for the volume fraction a of the first phase
  LET r1 == (Lam(Q) (.) Q[1]) (/) a
      r2 == ((F1 (-) Lam(Q)) (.) Q[1]) (/) (F1 (-) a)
      p == Shared(m, Q, r1, r2)
  IN TofRP(m, r1, p) (-) TofRP(m.MP2, r2, p)

\* Newton's method from a volume fraction nearby
RECURSIVE Fraction(_, _, _, _)
Fraction(m, Q, a, n) ==
  IF n = 0 THEN a
  ELSE LET h == FS("1e-5") (.) FMin(a, F1 (-) a)
           g == Gap(m, Q, a)
           s == ((Gap(m, Q, a (+) h) (-) Gap(m, Q, a (-) h)) (/) (F2 (.) h))
           b == a (-) (g (/) s)
           c == FMin(FMax(b, Half (.) a), Half (.) (F1 (+) a))     \* stay inside
       IN IF c = a THEN a ELSE Fraction(m, Q, c, n - 1)

Mixed(m, Q) == m.MULTI /\ FLt(F0, Lam(Q)) /\ FLt(Lam(Q), F1)

\* <<pressure, r1, r2>>, with the phases near volume fraction a
Phases(m, Q, a) ==
  IF Mixed(m, Q)
  THEN LET b == Fraction(m, Q, a, 12)
           r1 == (Lam(Q) (.) Q[1]) (/) b
           r2 == ((F1 (-) Lam(Q)) (.) Q[1]) (/) (F1 (-) b)
       IN << Shared(m, Q, r1, r2), r1, r2 >>
  ELSE LET one == IF FLt(F0, Lam(Q)) \/ ~m.MULTI THEN m ELSE m.MP2
           p == PofRE(one, Q[1], MicroEnergy(m, Q))
       IN << IF m.MULTI THEN FMax(p, F0) ELSE p, Q[1], Q[1] >>

FractionOf(Q, r1) == (Lam(Q) (.) Q[1]) (/) r1

PressureM(m, Q, a) == Phases(m, Q, a)[1]
TemperatureM(m, Q, a) ==
  LET s == Phases(m, Q, a)
  IN IF m.MULTI /\ FLe(Lam(Q), F0) THEN TofRP(m.MP2, s[3], s[1]) ELSE TofRP(m, s[2], s[1])

\* rate of consumption of the reactant, with the temperature and the pressure of the mixture
Rate(m, Q, a) ==
  LET l0 == FMax(F0, Lam(Q)) IN
  IF l0 = F0 /\ m.REACTION < 2 THEN F0
  ELSE
  CASE m.REACTION = 0 -> IF FLt(m.Ti, TemperatureM(m, Q, a)) THEN m.Kc (.) l0 ELSE F0
    [] m.REACTION = 1 -> m.Bc (.) (FExp(FNeg(m.Ea (/) (m.Rc (.) TemperatureM(m, Q, a)))) (.) l0)
    [] m.REACTION = 2 ->
         LET l == FMin(l0, F1)
             f == F1 (-) l
             p == FMax(PressureM(m, Q, a), F0)
             c == ((Q[1] (/) m.rho0) (-) F1) (-) m.a
             ig == IF FLt(f, m.phiI) /\ FLt(F0, c)
                   THEN (m.I (.) FPow(l, m.b)) (.) FPow(c, m.x) ELSE F0
             g1 == IF FLt(f, m.phiG1)
                   THEN (m.G1 (.) FPow(l, m.c)) (.) (FPow(f, m.d) (.) FPow(p, m.y)) ELSE F0
             g2 == IF FLt(m.phiG2, f)
                   THEN (m.G2 (.) FPow(l, m.e)) (.) (FPow(f, m.g) (.) FPow(p, m.z)) ELSE F0
         IN FMax(ig (+) (g1 (+) g2), F0)

AtLam(Q, l) == [Q EXCEPT ![LamIx] = Q[1] (.) l]

\* the reaction at constant density and energy: lam' = -Rate, four steps of the classical scheme
\* the volume fraction follows the concentration
Slope(m, Q, l, x) ==
  LET q == AtLam(Q, l) IN FNeg(Rate(m, q, IF Mixed(m, q) THEN FMin(FMax(l (.) x, FS("1e-9")), FS("0.999999999")) ELSE F0))
ReactStep(m, Q, l, h, x) ==
  LET a == h (.) Slope(m, Q, l, x)
      b == h (.) Slope(m, Q, l (+) (a (/) F2), x)
      c == h (.) Slope(m, Q, l (+) (b (/) F2), x)
      d == h (.) Slope(m, Q, l (+) c, x)
  IN l (+) ((a (+) (F2 (.) b) (+) (F2 (.) c) (+) d) (/) FI(6))
RECURSIVE React(_, _, _, _, _, _)
React(m, Q, l, h, n, x) ==
  IF n = 0 THEN FMax(F0, l) ELSE React(m, Q, ReactStep(m, Q, l, h, x), h, n - 1, x)

\* primitive variables and fluxes of (not heat-conducting) mixtures
FluxM(m, Q, d, a) ==
  LET r == Q[1]  v == Vel(Q)  p == PressureM(m, Q, a)  sg == Sigma(m, Q)[d]
      Av == MVec(Dist(Q), v)
  IN << Q[2 + d], (v[d] (.) (Q[2] (+) p)) (-) VDot(sg, v) >>
     \o Build(3, LAMBDA k : (IF k = d THEN p ELSE F0) (+) ((v[d] (.) Q[2 + k]) (-) sg[k]))
     \o Build(9, LAMBDA k : IF ((k - 1) % 3) + 1 = d THEN Av[((k - 1) \div 3) + 1] ELSE F0)
     \o << v[d] (.) Q[LamIx] >> \o VZero(LSET)
PrimitivesM(m, Q, a) ==
  << Q[1], PressureM(m, Q, a) >> \o Vel(Q) \o SubSeq(Q, 6, 14) \o << Lam(Q) >> \o LevelSets(Q)
=============================================================================
