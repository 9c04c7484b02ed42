-------------------------------- MODULE GPR --------------------------------
(***************************************************************************)
(* The Godunov-Peshkov-Romenski model: the state of a cell, its closure    *)
(* relations (equation of state, stress, relaxation, reaction) and the     *)
(* governing equations                                                     *)
(*                                                                         *)
(*     dQ/dt + dF_d(Q)/dx_d + B_d(Q) dQ/dx_d = S(Q)                        *)
(*                                                                         *)
(* A state Q is the sequence of the conserved variables                    *)
(*   rho, rho E, rho v (3), A (9, row-major)[, rho J (3)][, rho lambda],   *)
(*   level sets (LSET)                                                     *)
(* and a material m is a record of parameters.                             *)
(***************************************************************************)
EXTENDS F64

CONSTANTS THERMAL, MULTI, LSET

NV == 14 + (IF THERMAL THEN 3 ELSE 0) + (IF MULTI THEN 1 ELSE 0) + LSET
LamIx == 14 + (IF THERMAL THEN 3 ELSE 0) + 1   \* position of rho lambda

SG == 0  SMG == 1  JWL == 2  CC == 3  GR == 4  VACUUM == -1

----------------------------------------------------------------------------
(* The parts of a state *)
Rho(Q) == Q[1]
Mom(Q) == SubSeq(Q, 3, 5)
Vel(Q) == VScale(F1 (/) Q[1], SubSeq(Q, 3, 5))
Dist(Q) == Rows(SubSeq(Q, 6, 14), 3)
Imp(Q) == VScale(F1 (/) Q[1], SubSeq(Q, 15, 17))
Lam(Q) == Q[LamIx] (/) Q[1]
LevelSets(Q) == SubSeq(Q, NV - LSET + 1, NV)

\* the material that owns a cell: the number of level sets that are not negative
MaterialIndex(Q) ==
  LET RECURSIVE count(_)
      count(k) == IF k = 0 THEN 0
                  ELSE (IF FLe(F0, Q[NV - LSET + k]) THEN 1 ELSE 0) + count(k - 1)
  IN count(LSET)

----------------------------------------------------------------------------
(* Mie-Grueneisen equations of state: reference curves and Grueneisen Gamma *)
Gru(m, r) ==
  CASE m.EOS = SG -> m.gamma (-) F1
    [] m.EOS = SMG -> (m.G0 (.) m.rho0) (/) r
    [] m.EOS = GR -> m.gamma
    [] m.EOS \in {JWL, CC} -> m.G0

RECURSIVE PRef(_, _)
PRef(m, r) ==
  LET x == m.rho0 (/) r IN
  CASE m.EOS = SG -> FNeg(m.pINF)
    [] m.EOS = SMG ->
         LET dv == (F1 (/) m.rho0) (-) (F1 (/) r)
             den == (F1 (/) m.rho0) (-) (m.s (.) dv)
         IN IF FLt(m.rho0, r) THEN (m.c02 (.) dv) (/) Sq(den)
            ELSE m.c02 (.) (r (-) m.rho0)
    [] m.EOS = GR ->
         LET t == FPow(r (/) m.rho0, m.alpha)
         IN ((m.c02 (.) r) (/) m.alpha) (.) ((t (-) F1) (.) t)
    [] m.EOS = JWL -> (m.A (.) FExp(FNeg(m.R1 (.) x))) (+) (m.B (.) FExp(FNeg(m.R2 (.) x)))
    [] m.EOS = CC -> (m.A (.) FPow(x, FNeg(m.R1))) (-) (m.B (.) FPow(x, FNeg(m.R2)))

ERef(m, r) ==
  LET x == m.rho0 (/) r IN
  CASE m.EOS = SG -> m.pINF (/) r
    [] m.EOS = SMG ->
         IF FLt(m.rho0, r)
         THEN Half (.) (PRef(m, r) (.) ((F1 (/) m.rho0) (-) (F1 (/) r)))
         ELSE F0
    [] m.EOS = GR ->
         LET t == FPow(r (/) m.rho0, m.alpha)
         IN (m.c02 (/) (F2 (.) Sq(m.alpha))) (.) Sq(t (-) F1)
    [] m.EOS = JWL ->
         ((m.A (/) (m.rho0 (.) m.R1)) (.) FExp(FNeg(m.R1 (.) x)))
         (+) ((m.B (/) (m.rho0 (.) m.R2)) (.) FExp(FNeg(m.R2 (.) x)))
    [] m.EOS = CC ->
         ((m.B (/) (m.rho0 (.) (F1 (-) m.R2))) (.) (FPow(x, F1 (-) m.R2) (-) F1))
         (-) ((m.A (/) (m.rho0 (.) (F1 (-) m.R1))) (.) (FPow(x, F1 (-) m.R1) (-) F1))

\* the integrating factor of the temperature along an isentrope
IntFactor(m, r) ==
  CASE m.EOS = SG -> FPow(r (/) m.rho0, m.gamma (-) F1)
    [] m.EOS = SMG -> FExp(m.G0 (.) (F1 (-) (m.rho0 (/) r)))
    [] m.EOS = GR -> FPow(r (/) m.rho0, m.gamma)
    [] m.EOS \in {JWL, CC} -> FPow(r (/) m.rho0, m.G0)

\* pressure and specific microscale energy of one phase, and the inverse
PofRE(m, r, e) == ((e (-) ERef(m, r)) (.) (r (.) Gru(m, r))) (+) PRef(m, r)
EofRP(m, r, p) == ERef(m, r) (+) ((p (-) PRef(m, r)) (/) (r (.) Gru(m, r)))
TofRP(m, r, p) == (IntFactor(m, r) (.) m.Tref)
                  (+) ((p (-) PRef(m, r)) (/) (r (.) (Gru(m, r) (.) m.cv)))

----------------------------------------------------------------------------
(* Shear *)
Cs2(m, r) == m.b02 (.) FPow(r (/) m.rho0, m.beta)
\* coefficient of the shear energy at given density and pressure
C0(m, r) == (F1 (-) (m.beta (/) Gru(m, r))) (.) Cs2(m, r)

Trace3(G) == G[1][1] (+) (G[2][2] (+) G[3][3])
Metric(A) == MMul(MT(A), A)
Dev(G) == MSub(G, MScale(Trace3(G) (/) F3, MId(3)))
FrobSq(M) == FSumOf(LAMBDA k : VDot(M[k], M[k]), 1, Len(M))
AdevG(A) == MMul(A, Dev(Metric(A)))

E2A(m, r, A) == (C0(m, r) (/) FI(4)) (.) FrobSq(Dev(Metric(A)))
E2J(m, J) == Half (.) (m.cal2 (.) VDot(J, J))
E3(v) == Half (.) VDot(v, v)
ER(m, lam) == m.Qc (.) (lam (-) F1)

\* specific energy left for the microscale
MicroEnergy(m, Q) ==
  LET e0 == (Q[2] (/) Q[1]) (-) (E3(Vel(Q)) (+) E2A(m, Q[1], Dist(Q)))
      e1 == IF THERMAL THEN e0 (-) E2J(m, Imp(Q)) ELSE e0
  IN IF m.REACTION > -1 THEN e1 (-) ER(m, Lam(Q)) ELSE e1

\* pressure of a one-phase material
Pressure1(m, Q) == PofRE(m, Q[1], MicroEnergy(m, Q))
Temperature1(m, Q) == TofRP(m, Q[1], Pressure1(m, Q))

\* shear stress: sigma = -rho * cs^2 * dev(G) G  (symmetric, trace <= 0)
Sigma(m, Q) ==
  LET A == Dist(Q) IN
  MScale(FNeg(Q[1] (.) Cs2(m, Q[1])), MMul(MT(AdevG(A)), A))

TotalEnergy(m, r, p, v, A, J, lam) ==
  LET e0 == EofRP(m, r, p) (+) (E3(v) (+) E2A(m, r, A))
      e1 == IF THERMAL THEN e0 (+) E2J(m, J) ELSE e0
  IN IF MULTI THEN e1 (+) ER(m, lam) ELSE e1

----------------------------------------------------------------------------
(* The two-phase mixture of a reactive material: a pressure and two phase  *)
(* densities solve these equations                                         *)
MixtureResiduals(m, Q, p, r1, r2) ==
  LET lam == Lam(Q)
      mu == F1 (-) lam
  IN << (lam (.) EofRP(m, r1, p)) (+) (mu (.) EofRP(m.MP2, r2, p)),
        TofRP(m, r1, p), TofRP(m.MP2, r2, p),
        (lam (/) r1) (+) (mu (/) r2) >>

----------------------------------------------------------------------------
(* The governing equations, given the pressure p of the state *)
PressureOf(m, Q) == Pressure1(m, Q)     \* one-phase

Flux(m, Q, d) ==
  LET r == Q[1]
      v == Vel(Q)
      p == PressureOf(m, Q)
      sg == Sigma(m, Q)[d]
      A == Dist(Q)
      Av == MVec(A, v)
      mass == << Q[2 + d] >>
      e0 == (v[d] (.) (Q[2] (+) p)) (-) VDot(sg, v)
      en == << IF THERMAL THEN e0 (+) (m.cal2 (.) (TofRP(m, r, p) (.) Imp(Q)[d])) ELSE e0 >>
      mom == Build(3, LAMBDA k : (IF k = d THEN p ELSE F0) (+) ((v[d] (.) Q[2 + k]) (-) sg[k]))
      dist == Build(9, LAMBDA k : IF ((k - 1) % 3) + 1 = d THEN Av[((k - 1) \div 3) + 1] ELSE F0)
      imp == IF THERMAL
             THEN Build(3, LAMBDA k : (v[d] (.) Q[14 + k])
                                      (+) (IF k = d THEN TofRP(m, r, p) ELSE F0))
             ELSE << >>
      lam == IF MULTI THEN << v[d] (.) Q[LamIx] >> ELSE << >>
  IN mass \o en \o mom \o dist \o imp \o lam \o VZero(LSET)

\* B_d(Q) x : the advection of A is corrected to v . grad A, level sets are advected
NonConservative(m, Q, x, d) ==
  LET v == Vel(Q)
      X == Rows(SubSeq(x, 6, 14), 3)
      dist == Build(9, LAMBDA k :
                LET row == ((k - 1) \div 3) + 1  col == ((k - 1) % 3) + 1
                IN (v[d] (.) X[row][col])
                   (-) (IF col = d THEN VDot(X[row], v) ELSE F0))
      rest == NV - 14 - LSET
  IN VZero(5) \o dist \o (IF rest > 0 THEN VZero(rest) ELSE << >>)
     \o Build(LSET, LAMBDA k : v[d] (.) x[NV - LSET + k])

NonConservativeMatrix(m, Q, d) ==
  MT(Build(NV, LAMBDA c : NonConservative(m, Q, MId(NV)[c], d)))

----------------------------------------------------------------------------
(* Relaxation, body forces and reaction *)
FrobNorm(s) == FSqrt(FrobSq(s) (/) F2)
\* the norm of Boscheri et al. (von Mises)
VonMises(s) ==
  LET a == s[1][1] (-) s[2][2]  b == s[2][2] (-) s[3][3]  c == s[3][3] (-) s[1][1]
  IN FSqrt((Half (.) (Sq(a) (+) (Sq(b) (+) Sq(c))))
           (+) (F3 (.) (Sq(s[1][2]) (+) (Sq(s[2][3]) (+) Sq(s[3][1])))))

\* 1 / theta_1
Theta1Inv(m, Q) ==
  LET A == Dist(Q)
      A53 == FPow(MDet3(A), FQ(5, 3))
      s == Sigma(m, Q)
      newton == (A53 (.) m.rho0) (/) (F2 (.) m.mu)
  IN CASE m.SOLID /\ ~m.POWER_LAW -> F0
       [] m.SOLID /\ m.POWER_LAW ->
            ((F3 (.) A53) (/) (Cs2(m, Q[1]) (.) m.tau0))
            (.) FPow(FMin(VonMises(s), FS("1e8")) (/) m.sigY, m.n)
       [] ~m.SOLID /\ m.BINGHAM ->
            IF FLt(m.sigY, FrobNorm(s))
            THEN newton (.) (F1 (-) (m.sigY (/) FrobNorm(s))) ELSE F0
       [] ~m.SOLID /\ ~m.BINGHAM /\ m.POWER_LAW ->
            ((A53 (.) m.rho0) (/) (F2 (.) FPow(m.mu, F1 (/) m.n)))
            (.) (IF FLt(F0, FrobNorm(s)) THEN FPow(FrobNorm(s), (F1 (-) m.n) (/) m.n) ELSE F0)
       [] OTHER -> (A53 (.) m.rho0) (/) (F2 (.) FPow(m.mu, F1 (/) m.n))

Theta2Inv(m, Q) == Temperature1(m, Q) (/) (m.kappa (.) Q[1])

\* rate of consumption of the reactant, given temperature and pressure
ReactionRate(m, Q) ==
  LET l0 == FMax(F0, Lam(Q)) IN
  CASE m.REACTION = 0 ->
         IF FLt(m.Ti, Temperature1(m, Q)) THEN m.Kc (.) l0 ELSE F0
    [] m.REACTION = 1 ->
         m.Bc (.) (FExp(FNeg(m.Ea (/) (m.Rc (.) Temperature1(m, Q)))) (.) l0)
    [] m.REACTION = 2 ->
         LET l == FMin(l0, F1)
             f == F1 (-) l
             p == FMax(Pressure1(m, Q), F0)
             c == ((Q[1] (/) m.rho0) (-) F1) (-) m.a    \* compression that ignites
             ig == IF FLt(f, m.phiI) /\ FLt(F0, c)
                   THEN (m.I (.) FPow(l, m.b)) (.) FPow(c, m.x) ELSE F0
             g1 == IF FLt(f, m.phiG1)
                   THEN (m.G1 (.) FPow(l, m.c)) (.) (FPow(f, m.d) (.) FPow(p, m.y)) ELSE F0
             g2 == IF FLt(m.phiG2, f)
                   THEN (m.G2 (.) FPow(l, m.e)) (.) (FPow(f, m.g) (.) FPow(p, m.z)) ELSE F0
         IN FMax(ig (+) (g1 (+) g2), F0)

Source(m, Q) ==
  LET th == Theta1Inv(m, Q)
      dist == VScale(FNeg(Cs2(m, Q[1]) (.) th), Flat(AdevG(Dist(Q))))
      imp == IF THERMAL
             THEN VScale(FNeg(m.cal2 (.) Theta2Inv(m, Q)), SubSeq(Q, 15, 17)) ELSE << >>
      base == << F0, F0 >> \o m.dp \o dist \o imp
      pad == base \o VZero(NV - Len(base))
  IN IF m.REACTION > -1
     THEN [pad EXCEPT ![LamIx] = FNeg(Q[1] (.) ReactionRate(m, Q))]
     ELSE pad

----------------------------------------------------------------------------
(* Derivatives by fourth-order differences (the specification of every     *)
(* Jacobian of the implementation)                                         *)
Diff(Fn(_), x, h) ==
  LET f(k) == Fn(x (+) (FI(k) (.) h))
  IN ((FI(8) (.) (f(1) (-) f(-1))) (-) (f(2) (-) f(-2))) (/) (FI(12) (.) h)

VDiff(Fn(_), x, h) ==
  LET f(k) == Fn(x (+) (FI(k) (.) h))
  IN VScale(F1 (/) (FI(12) (.) h),
            VSub(VScale(FI(8), VSub(f(1), f(-1))), VSub(f(2), f(-2))))

\* dFn/dQ, rows = components of Fn; sc = scale of each component of Q
Jacobian(Fn(_), Q, sc) ==
  MT(Build(Len(Q), LAMBDA c :
       VDiff(LAMBDA x : Fn([Q EXCEPT ![c] = x]), Q[c], FS("1e-3") (.) sc[c])))

\* adiabatic sound speed squared
SoundSpeed2(m, r, p) ==
  LET h == r (.) FS("1e-3")
      er == Diff(LAMBDA x : EofRP(m, x, p), r, h)
      ep == F1 (/) (r (.) Gru(m, r))
  IN ((p (/) Sq(r)) (-) er) (/) ep
=============================================================================
