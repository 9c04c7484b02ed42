-------------------------------- MODULE Star --------------------------------
(***************************************************************************)
(* The Riemann problem of two materials in contact, along the first axis.   *)
(* A step replaces both states by the solution of the linearised problem:   *)
(* on either side only acoustic waves that leave the interface change the   *)
(* state, and they change it so that the interface conditions hold.         *)
(* The states are stepped (each time after half a relaxation step) until    *)
(* the conditions hold, ten times at the most.                              *)
(***************************************************************************)
EXTENDS Waves

CONSTANTS STICK          \* tangential motion is continuous, too (else there is no friction)

Limit == 10
StarTol == FS("1e-8")
Vacuum(m) == m.EOS = VACUUM
Traction(m, Q) ==
  LET s == Sigma(m, Q)[1] IN << PressureOf(m, Q) (-) s[1], FNeg(s[2]), FNeg(s[3]) >>
HeatFlux(m, Q) == m.cal2 (.) (Temperature1(m, Q) (.) Imp(Q)[1])
HeatUnit(m) == (m.cal2 (/) m.rho0) (.) (m.T0 (.) FSqrt(m.T0 (/) m.cv))

\* how far two states are from meeting the interface conditions
Mismatch(mL, mR, QL, QR) ==
  LET tL == Traction(mL, QL)
      tR == Traction(mR, QR)
      v == VSub(Vel(QL), Vel(QR))
      b == FMin(mL.b02, mR.b02)
      r == FMin(mL.rho0, mR.rho0)
      mech == IF Vacuum(mR) THEN VMaxAbs(tL) (/) (mL.b02 (.) mL.rho0)
              ELSE IF STICK THEN FMax(VMaxAbs(VSub(tL, tR)) (/) (b (.) r), VMaxAbs(v) (/) FSqrt(b))
              ELSE FMax(FMax(FAbs(tL[1] (-) tR[1]), VMaxAbs(SubSeq(tL, 2, 3) \o SubSeq(tR, 2, 3))) (/) (b (.) r),
                        FAbs(v[1]) (/) FSqrt(b))
      heat == IF Vacuum(mR) THEN FAbs(HeatFlux(mL, QL)) (/) HeatUnit(mL)
              ELSE FMax(FAbs(HeatFlux(mL, QL) (-) HeatFlux(mR, QR)) (/) FMin(HeatUnit(mL), HeatUnit(mR)),
                        FAbs(Temperature1(mL, QL) (-) Temperature1(mR, QR)) (/) FMin(mL.T0, mR.T0))
  IN IF THERMAL THEN FMax(mech, heat) ELSE mech

\* what a step did to one side, in the units psc: Q -> P.  Waves leave towards -x (s = 1) or +x (s = -1)
Side(m, Q, P, sc, psc, s) ==
  LET M == PrimitiveMatrix(m, Q, 1, sc, psc)
      V == Driven(1)
      R == Others(1)
      X1 == Minor(M, V, R)
      X2 == Minor(M, R, V)
      T == MMul(X1, X2)
      dP == VSub(Primitives(m, P), Primitives(m, Q))
      unit(ix) == Build(Len(ix), LAMBDA k : dP[ix[k]] (/) psc[ix[k]])
      w == unit(V)
      z == unit(R)
      push == MVec(X1, z)
      \* the tractions (and temperature) of the linearised state, over the density
      lin == Build(Len(V), LAMBDA k : push[k] (.) psc[V[k]])
      Tx == Traction(m, Q) \o (IF THERMAL THEN << Temperature1(m, Q) >> ELSE << >>)
      n == Len(V)
      half == Build(2 * n, LAMBDA r : Build(2 * n, LAMBDA c :      \* its square is T, twice
                IF r <= n THEN (IF c = n + r THEN F1 ELSE F0)
                ELSE IF c <= n THEN T[r - n][c] ELSE F0))
  IN [ push |-> push, pull |-> MAbsVec(half, w \o VZero(n)),
       z |-> z, w |-> w, back |-> MVec(X2, MVec(MInv(T), push)),
       x |-> VAxpy(Q[1], lin, Tx), speed |-> FSqrt(MMaxAbs(T)), s |-> s ]

\* only leaving acoustic waves: C dP = -s |C| dP, and no part of dP is left where it was
Leaving(a, tol) ==
  LET n == Len(a.w)
      size == FMax(VMaxAbs(a.w), VMaxAbs(a.z)) (+) FS("1e-7")
  IN /\ FLe(VMaxAbs(VAdd(a.push, VScale(FI(a.s), SubSeq(a.pull, 1, n)))), (tol (.) size) (.) a.speed)
     /\ FLe(VMaxAbs(VSub(a.z, a.back)), tol (.) size)
=============================================================================
