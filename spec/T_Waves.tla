------------------------------ MODULE T_Waves ------------------------------
(* Trace specification: characteristic speeds, eigenvectors, and the fluxes between two states *)
EXTENDS Fluxes, TraceBase

Eigs(e) ==
  LET rad == MSpecRad(Scaled(SystemMatrix(e.m, e.Q, e.d, e.sc), e.sc)) IN
  Req("wave speed is not the spectral radius", FClose(e.lam, rad, FS("1e-6"), F0))

MatClose(X, Y, t) == FLe(MMaxAbs(MSub(X, Y)), t (.) MMaxAbs(Y))
TensorEv(e) ==
  LET T == Tensor(e.m, e.Q, e.d, e.sc, e.psc)
      V == Driven(e.d)
      unit(M) == Build(Len(V), LAMBDA r : Build(Len(V), LAMBDA c :
                   (M[r][c] (.) e.psc[V[c]]) (/) e.psc[V[r]]))
  IN Req("acoustic tensor", MatClose(unit(e.T), unit(T), FS("1e-6")))

\* each column of R that is not zero is an eigenvector of the primitive system
EigenEv(e) ==
  LET M == PrimitiveMatrix(e.m, e.Q, e.d, e.sc, e.psc)
      size == VMaxAbs(<< MMaxAbs(M) >>)
      col(k) == Build(NV, LAMBDA r : e.R[r][k] (/) e.psc[r])
      ok(k) == LET r == col(k)
                   y == MVec(M, r)
                   l == VDot(r, y) (/) VDot(r, r)
               IN /\ VFinite(r)
                  /\ FLe(VMaxAbs(VSub(y, VScale(l, r))), FS("1e-5") (.) (size (.) VMaxAbs(r)))
      zero(k) == \A r \in 1..NV : FEq(e.R[r][k], F0)
  IN UNION { Req("column " \o ToString(k) \o " is not an eigenvector", (THERMAL /\ zero(k)) \/ ok(k))
             : k \in 1..NV }

----------------------------------------------------------------------------
(* Fluxes *)
FluxPair(e) ==
  LET want == Interface(e)
      same == \A k \in 1..NV : FEq(e.L[k], e.R[k])
      tol == IF same THEN FS("1e-9") ELSE FS("1e-6") (+) (FI(10) (.) FMin(F1, e.imag))
      good == { k \in DOMAIN e.outs : VCloseS(e.outs[k], want, e.fs, tol) }
  \* e.outs: the flux of the pair and of pairs that differ by rounding.  The eigenvectors of the
  \* repeated eigenvalue that the schemes compute are, rarely and at random, nearly parallel
  IN Req(e.scheme \o " flux", Cardinality(good) >= 2)

JumpEv(e) ==
  LET dq == VSub(e.R, e.L)
      want == Jump(e)
      vmax == VMaxAbs(Vel(e.L)) (+) VMaxAbs(Vel(e.R))
  IN Req("jump term", VClose(e.out, want, F0, FS("1e-11") (.) (VMaxAbs(dq) (.) vmax)))

EventFaults(e) ==
  CASE e.ev = "eigs" -> Eigs(e)
    [] e.ev = "tensor" -> TensorEv(e)
    [] e.ev = "eigen" -> EigenEv(e)
    [] e.ev = "fluxpair" -> FluxPair(e)
    [] e.ev = "jump" -> JumpEv(e)
=============================================================================
