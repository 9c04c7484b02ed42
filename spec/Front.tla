------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The Python front end: what a description of a material (a record of the *)
(* arguments given) means, the state of a cell described by its primitive  *)
(* variables, the variables of a state, and hyperelastic descriptions.     *)
(***************************************************************************)
EXTENDS Mixture

Req2(b, s) == IF b THEN {} ELSE {s}
Given(a, k) == k \in DOMAIN a
Num(a, k, default) == IF Given(a, k) THEN a[k] ELSE default

EosOf(s) == CASE s = "sg" -> SG [] s = "smg" -> SMG [] s = "jwl" -> JWL [] s = "cc" -> CC
              [] s = "gr" -> GR [] s = "vac" -> VACUUM
ReactionOf(s) == CASE s = "d" -> 0 [] s = "a" -> 1 [] s = "i" -> 2

\* arguments of a phase, and the parameter each of them is
Kept(eos) == CASE eos = SG -> {"gamma"} [] eos = SMG -> {"G0", "s"} [] eos = GR -> {"alpha", "beta", "gamma"}
               [] eos \in {JWL, CC} -> {"G0", "A", "B", "R1", "R2"}
Same(x, y) == FClose(x, y, FS("1e-15"), F0)

\* a: arguments of a phase; p: the parameters it got
PhaseFaults(a, p) ==
  LET eos == EosOf(a.EOS) IN
  Req2(p.EOS = eos, "equation of state")
  \cup UNION { Req2(Given(a, k) => p[k] = a[k], "parameter " \o k) : k \in Kept(eos) \cup {"rho0"} }
  \cup Req2(eos = SG => p.pINF = Num(a, "pINF", F0), "parameter pINF")
  \cup Req2(eos \in {SMG, GR} => Same(p.c02, Sq(a.c0)), "square of c0")
  \cup Req2(Given(a, "cv") => p.cv = a.cv /\ p.Tref = Num(a, "Tref", F0), "heat capacity and reference temperature")
  \cup Req2(Same(p.b02, Sq(Num(a, "b0", F0))), "square of the shear wave speed")
  \cup Req2(Given(a, "b0") => p.beta = Num(a, "beta", F0), "exponent of the shear wave speed")
  \cup Req2(Given(a, "b0") /\ Given(a, "mu") => p.mu = a.mu, "viscosity")
  \cup Req2(Same(p.cal2, Sq(Num(a, "cal", F0))), "square of the heat wave speed")
  \cup Req2(Given(a, "cal") => IF Given(a, "Pr")
                               THEN FClose(p.kappa (.) a.Pr, a.mu (.) (a.gamma (.) a.cv), FS("1e-14"), F0)
                               ELSE p.kappa = a.kappa, "heat conductivity")

Rheology(a) ==
  IF Given(a, "n") THEN [POWER_LAW |-> TRUE, SOLID |-> Given(a, "sigY"), BINGHAM |-> FALSE]
  ELSE [POWER_LAW |-> FALSE, SOLID |-> ~Given(a, "mu"), BINGHAM |-> Given(a, "mu") /\ Given(a, "sigY")]

Kinetics(r) == CASE r = "d" -> {"Kc", "Ti"} [] r = "a" -> {"Bc", "Ea", "Rc"}
                 [] r = "i" -> {"I", "G1", "G2", "a", "b", "c", "d", "e", "g", "x", "y", "z", "phiI", "phiG1", "phiG2"}

ParamFaults(a, p) ==
  IF a.EOS = "vac" THEN Req2(p.EOS = VACUUM, "vacuum") \cup Req2(p.REACTION = -1, "inert vacuum")
  ELSE
  PhaseFaults(a, p)
  \cup Req2(Given(a, "b0") => /\ p.SOLID = Rheology(a).SOLID
                             /\ p.POWER_LAW = Rheology(a).POWER_LAW
                             /\ p.BINGHAM = Rheology(a).BINGHAM, "rheology")
  \cup Req2(Given(a, "b0") => p.n = Num(a, "n", F1), "exponent of the rheology")
  \cup Req2(Given(a, "b0") /\ Given(a, "sigY") => p.sigY = a.sigY, "yield stress")
  \cup Req2(Given(a, "b0") /\ Given(a, "tau0") => p.tau0 = a.tau0, "relaxation time")
  \cup Req2(p.REACTION = IF Given(a, "REACTION") THEN ReactionOf(a.REACTION) ELSE -1, "reaction")
  \cup (IF ~Given(a, "REACTION") THEN {}
        ELSE UNION { Req2(p[k] = a[k], "parameter " \o k) : k \in Kinetics(a.REACTION) \cup {"Qc"} })
  \cup Req2(p.dp = IF Given(a, "dp") THEN a.dp ELSE VZero(3), "body force")
  \cup Req2(p.MULTI = Given(a, "second"), "mixture")
  \cup (IF Given(a, "second") THEN { "second phase: " \o f : f \in PhaseFaults(a.second, p.MP2) } ELSE {})

----------------------------------------------------------------------------
(* The conserved variables of a description *)
Built(r, p, v, A, J, lam, Q) ==      \* everything but the energy
  LET x == << r >> \o VScale(r, v) \o Flat(A) \o (IF THERMAL THEN VScale(r, J) ELSE << >>)
           \o (IF MULTI THEN << r (.) lam >> ELSE << >>)
  IN VClose(<< Q[1] >> \o SubSeq(Q, 3, NV - LSET), x, FS("1e-15"), F0)

\* magnitude of the terms that cancel in the pressure of Q
PressureScale(m, Q, p) ==
  LET r == Q[1] IN
  FAbs(p) (+) (FAbs(PRef(m, r)) (+)
  ((r (.) FAbs(Gru(m, r))) (.)
   (FAbs(Q[2] (/) r) (+) (E3(Vel(Q)) (+) (FAbs(ERef(m, r)) (+)
     (FAbs(E2A(m, r, Dist(Q))) (+) (IF m.REACTION > -1 THEN FAbs(m.Qc) ELSE F0)))))))

----------------------------------------------------------------------------
(* Derivatives of the energy, the temperature and the stress *)
EnergyOf(m, r, p, A) == EofRP(m, r, p) (+) E2A(m, r, A)

StressOf(m, r, A) == MScale(FNeg(r (.) Cs2(m, r)), MMul(MT(AdevG(A)), A))

\* d sigma_ij / d A_kl
StressByA(m, r, A, k, l, h) ==
  Rows(VDiff(LAMBDA x : Flat(StressOf(m, r, [A EXCEPT ![k] = [@ EXCEPT ![l] = x]])), A[k][l], h), 3)

----------------------------------------------------------------------------
(* Hyperelastic descriptions: the deformation F, the entropy S *)
Inv3(G) == MDet3(G)
Inv2(G) == Half (.) (Sq(Trace3(G)) (-) FrobSq(G))

ColdEnergy(h, A) ==
  LET I3 == Inv3(Metric(A))
      K0 == Sq(h.c0) (-) (FQ(4, 3) (.) Sq(h.b0))
  IN (K0 (/) (F2 (.) Sq(h.alpha))) (.) Sq(FPow(I3, Half (.) h.alpha) (-) F1)
HeatEnergy(h, A, s) ==
  (h.cv (.) h.T0) (.) (FPow(Inv3(Metric(A)), Half (.) h.gamma) (.) (FExp(s (/) h.cv) (-) F1))
ShearEnergy(h, A) ==
  LET G == Metric(A) IN
  (Half (.) Sq(h.b0)) (.) (FPow(Inv3(G), Half (.) h.beta) (.) ((Sq(Trace3(G)) (/) F3) (-) Inv2(G)))
HyperEnergy(h, A, s, v) == (ColdEnergy(h, A) (+) HeatEnergy(h, A, s)) (+) (ShearEnergy(h, A) (+) E3(v))

\* the stress: -rho A^T de/dA
HyperStress(h, r, A, s) ==
  LET step == FS("1e-3") (.) MMaxAbs(A)
      D == Build(3, LAMBDA k : Build(3, LAMBDA l :
             Diff(LAMBDA x : HyperEnergy(h, [A EXCEPT ![k] = [@ EXCEPT ![l] = x]], s, << F0, F0, F0 >>), A[k][l], step)))
  IN MScale(FNeg(r), MMul(MT(A), D))

\* the Mie-Grueneisen material of the same energy
AsMaterial(h, m) == [m EXCEPT !.EOS = GR, !.rho0 = h.rho0, !.alpha = h.alpha, !.beta = h.beta, !.gamma = h.gamma,
                     !.c02 = Sq(h.c0) (-) (FQ(4, 3) (.) Sq(h.b0)), !.b02 = Sq(h.b0), !.cv = h.cv, !.REACTION = -1]
=============================================================================
