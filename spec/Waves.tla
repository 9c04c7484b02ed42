------------------------------- MODULE Waves -------------------------------
(***************************************************************************)
(* The characteristic structure of the equations, from the derivatives of   *)
(* the specification's own fluxes.                                          *)
(***************************************************************************)
EXTENDS GPR, FiniteSets

\* J + B in scaled variables (sc[k] is the unit of variable k)
SystemMatrix(m, Q, d, sc) ==
  MAdd(Jacobian(LAMBDA q : Flux(m, q, d), Q, sc), NonConservativeMatrix(m, Q, d))
Scaled(M, sc) ==
  LET inv == [k \in 1..Len(sc) |-> F1 (/) sc[k]]
  IN Build(Len(M), LAMBDA r : VScale(inv[r], VHad(M[r], sc)))

\* primitive variables, in the order density, pressure, columns of A, velocity, impulse,
\* concentration, level sets
Primitives(m, Q) ==
  LET A == Dist(Q) IN
  << Q[1], PressureOf(m, Q) >>
  \o Build(9, LAMBDA k : A[((k - 1) % 3) + 1][((k - 1) \div 3) + 1])
  \o Vel(Q) \o (IF THERMAL THEN Imp(Q) ELSE << >>)
  \o (IF MULTI THEN << Lam(Q) >> ELSE << >>) \o LevelSets(Q)
PrimitiveMatrix(m, Q, d, sc, psc) ==
  LET DP == Jacobian(LAMBDA q : Primitives(m, q), Q, sc)
      X == Scaled(SystemMatrix(m, Q, d, sc), sc)
      Y == Build(NV, LAMBDA r : VScale(F1 (/) psc[r], VHad(DP[r], sc)))   \* dP/dQ in units
  IN MMul(MMul(Y, X), MInv(Y))

\* the square of the waves' motion: velocities drive the other variables, which drive them back
Driven(d) == << 12, 13, 14 >> \o (IF THERMAL THEN << 14 + d >> ELSE << >>)
Others(d) ==
  LET V == Driven(d)
      in == { V[k] : k \in 1..Len(V) }
  IN [k \in 1..(NV - Len(V)) |-> CHOOSE c \in (1..NV) \ in :
        Cardinality({ b \in (1..NV) \ in : b < c }) = k - 1]
Minor(M, rs, cs) == Build(Len(rs), LAMBDA r : Build(Len(cs), LAMBDA c : M[rs[r]][cs[c]]))
Tensor(m, Q, d, sc, psc) ==
  LET M == PrimitiveMatrix(m, Q, d, sc, psc)
      V == Driven(d)
      n == Len(V)
      T == MMul(Minor(M, V, Others(d)), Minor(M, Others(d), V))
  IN Build(n, LAMBDA r : Build(n, LAMBDA c : (T[r][c] (.) psc[V[r]]) (/) psc[V[c]]))
=============================================================================
