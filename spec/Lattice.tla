------------------------------- MODULE Lattice -------------------------------
(* A lattice of states: one material per law and rheology, a few distortions. *)
EXTENDS GPR

Laws == {"gas", "water", "copper", "explosive", "liquid", "metal"}
Kinds_ == {"viscous", "plastic", "bingham", "powerlaw", "solid"}
RawPar == [b02 |-> F2, beta |-> F0, cal2 |-> F2, kappa |-> FQ(1, 10), cv |-> F2, Tref |-> F3,
        mu |-> FQ(1, 10), tau0 |-> F1, sigY |-> FQ(1, 5), n |-> F2, REACTION |-> -1, Qc |-> F0,
        dp |-> VZero(3), SOLID |-> FALSE, POWER_LAW |-> FALSE, BINGHAM |-> FALSE]
LawOf(law) ==
  CASE law = "gas" -> [EOS |-> SG, gamma |-> FQ(7, 5), pINF |-> F0, rho0 |-> F1]
    [] law = "water" -> [EOS |-> SG, gamma |-> F2, pINF |-> F1, rho0 |-> F1]
    [] law = "copper" -> [EOS |-> SMG, G0 |-> F2, c02 |-> F3, s |-> FQ(3, 2), rho0 |-> F2]
    [] law = "explosive" -> [EOS |-> JWL, G0 |-> FQ(1, 2), A |-> FI(50), B |-> F2, R1 |-> FI(4), R2 |-> F1,
                             rho0 |-> F1]
    [] law = "liquid" -> [EOS |-> CC, G0 |-> FQ(6, 5), A |-> F1, B |-> FQ(3, 2), R1 |-> FI(4), R2 |-> F3,
                          rho0 |-> F1]
    [] law = "metal" -> [EOS |-> GR, gamma |-> F2, alpha |-> FQ(3, 2), c02 |-> F3, rho0 |-> F2]
MaterialOf(law, kind) ==
  LET M0 == LawOf(law) @@ RawPar IN
  CASE kind = "viscous" -> M0
    [] kind = "plastic" -> [M0 EXCEPT !.SOLID = TRUE, !.POWER_LAW = TRUE]
    [] kind = "bingham" -> [M0 EXCEPT !.BINGHAM = TRUE]
    [] kind = "powerlaw" -> [M0 EXCEPT !.POWER_LAW = TRUE]
    [] kind = "solid" -> [M0 EXCEPT !.SOLID = TRUE]
Shapes == << << 0, 0, 0, 0, 0, 0, 0, 0, 0 >>, << 1, 0, 0, 0, 0, 0, 0, 0, 0 >>, << 0, 1, 0, 0, 0, 0, 0, 0, 0 >>,
             << 0, 0, 0, -1, 0, 1, 0, 0, 0 >>, << 1, 0, 0, 0, -1, 0, 0, 0, 1 >>, << 1, 2, -1, 0, 3, 1, -2, 1, -1 >>,
             << -2, 0, 2, 0, 3, 0, -1, 1, 0 >> >>
\* the distortion of shape a (from 0) with a given determinant
DistortionOf(a, det) ==
  LET A0 == Build(9, LAMBDA k : FQ(Shapes[a + 1][k], 10) (+) (IF k \in {1, 5, 9} THEN F1 ELSE F0))
  IN Rows(VScale(FCbrt(det (/) MDet3(Rows(A0, 3))), A0), 3)
Near(x, y, t) == FClose(x, y, t, t)
=============================================================================
