---------------------------- MODULE T_Equations ----------------------------
(* Trace specification: the terms of the governing equations of one cell and their Jacobians *)
EXTENDS GPR, TraceBase

\* close to t times the scale of each component
Near(a, c, s, t) == VCloseS(a, c, s, t)

\* primitive variables in the order of the conserved ones
Primitives(m, Q) ==
  << Q[1], PressureOf(m, Q) >> \o Vel(Q) \o SubSeq(Q, 6, 14)
  \o (IF THERMAL THEN Imp(Q) ELSE << >>) \o (IF MULTI THEN << Lam(Q) >> ELSE << >>) \o LevelSets(Q)

\* |X - Y| small entrywise relative to the largest entry of the row, in scaled variables
MatNear(X, Y, sc, t) ==
  \A k \in DOMAIN Y :
    LET big == VMaxAbs(VHad(Y[k], sc)) IN
    /\ FLe(VMaxAbs(VSub(VHad(X[k], sc), VHad(Y[k], sc))), (t (.) big) (+) (FS("1e-300")))
    /\ VFinite(X[k])

Kink(m, r) == m.EOS = SMG /\ FLt(FAbs((r (/) m.rho0) (-) F1), FS("3e-3"))

FluxEv(e) ==
  Req("flux", Near(VSub(e.out, e.pre), Flux(e.m, e.Q, e.d), VAdd(e.fs, VScale(FS("1e-3"), e.pre)),
                   FS("1e-10")))

SourceEv(e) ==
  LET S == Source(e.m, e.Q) IN
  Req("source", \A k \in 1..NV : FClose(e.out[k], S[k], FS("1e-8"), FS("1e-10") (.) e.ss[k]))

BdotEv(e) ==
  LET b == NonConservative(e.m, e.Q, e.x, e.d) IN
  Req("non-conservative product",
      VClose(e.out, b, F0, FS("1e-12") (.) (VMaxAbs(e.x) (.) VMaxAbs(Vel(e.Q)))))

BlockEv(e) ==
  LET B == NonConservativeMatrix(e.m, e.Q, e.d) IN
  Req("block", \A k \in 1..NV :
        VClose(e.out[k], B[k], F0, FS("1e-12") (.) VMaxAbs(Vel(e.Q))))

JacEv(e) ==
  LET m == e.m  Q == e.Q
      tol == IF Kink(m, Q[1]) THEN FS("1e-2") ELSE FS("1e-6")
      JF == Jacobian(LAMBDA q : Flux(m, q, e.d), Q, e.sc)
      JP == Jacobian(LAMBDA q : Primitives(m, q), Q, e.sc)
      B == NonConservativeMatrix(m, Q, e.d)
  IN Req("system matrix", MatNear(e.M, MAdd(JF, B), e.sc, tol))
     \cup Req("dP/dQ", MatNear(e.dPdQ, JP, e.sc, tol))
     \cup Req("dF/dP dP/dQ", MatNear(MMul(e.dFdP, e.dPdQ), JF, e.sc, tol))

EventFaults(e) ==
  CASE e.ev = "flux" -> FluxEv(e)
    [] e.ev = "source" -> SourceEv(e)
    [] e.ev = "bdot" -> BdotEv(e)
    [] e.ev = "block" -> BlockEv(e)
    [] e.ev = "jacobians" -> JacEv(e)
=============================================================================
