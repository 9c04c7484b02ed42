------------------------------- MODULE Fluxes -------------------------------
(***************************************************************************)
(* The numerical fluxes between two states: e has the material m, states L *)
(* and R, the direction d, the scheme and units sc of the variables.       *)
(***************************************************************************)
EXTENDS Waves, Basis

At(e, s) == VAdd(e.R, VScale(s, VSub(e.L, e.R)))     \* the state at s between R and L
Speed(e, Q) == MSpecRad(Scaled(SystemMatrix(e.m, Q, e.d, e.sc), e.sc))
Matrix(e, Q) == Scaled(SystemMatrix(e.m, Q, e.d, e.sc), e.sc)
\* in scaled variables.  Where the averaged matrix has complex eigenvalues its absolute value is
\* not unique, and where eigenvectors are nearly parallel it is ill-conditioned: e.imag
Dissipation(e) ==
  LET jump == Build(NV, LAMBDA k : (e.L[k] (-) e.R[k]) (/) e.sc[k]) IN
  CASE e.scheme = "rusanov" -> VScale(FMax(Speed(e, e.L), Speed(e, e.R)), jump)
    [] e.scheme = "roe" ->
         LET RECURSIVE avg(_)
             avg(k) == LET X == MScale(Weights[k], Matrix(e, At(e, Nodes[k])))
                       IN IF k = 1 THEN X ELSE MAdd(avg(k - 1), X)
         IN MAbsVec(avg(N), jump)
    [] e.scheme = "osher" ->
         VSumOf(LAMBDA k : VScale(Weights[k], MAbsVec(Matrix(e, At(e, Nodes[k])), jump)), 1, N)

\* the two physical fluxes and the dissipation, and the jump term
Interface(e) ==
  LET D == Dissipation(e)
  IN VAdd(VAdd(Flux(e.m, e.L, e.d), Flux(e.m, e.R, e.d)), Build(NV, LAMBDA k : D[k] (.) e.sc[k]))
Jump(e) ==
  LET dq == VSub(e.R, e.L)
  IN VSumOf(LAMBDA k : VScale(Weights[k],
       NonConservative(e.m, VAdd(e.L, VScale(Nodes[k], dq)), dq, e.d)), 1, N)
=============================================================================
