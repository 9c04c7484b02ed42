------------------------------ MODULE T_Front ------------------------------
(* Trace specification: the Python front end *)
EXTENDS Front, TraceBase

ParamsEv(e) == ParamFaults(e.a, e.p)
HyperParamsEv(e) ==
  Req("bulk modulus", FClose(e.K0, Sq(e.h.c0) (-) (FQ(4, 3) (.) Sq(e.h.b0)), FS("1e-14"), F0))
  \cup Req("shear", Same(e.b02, Sq(e.h.b0)))
  \cup Req("parameters", \A k \in {"rho0", "alpha", "beta", "gamma", "cv", "T0"} : e.got[k] = e.h[k])

Other1(m, Q) == m.MULTI /\ FLe(Lam(Q), F0)       \* only the second phase is there

\* a state described by density, pressure, velocity, distortion, impulse and concentration
CvecEv(e) ==
  LET m == e.m  Q == e.Q
      one == IF Other1(m, Q) THEN m.MP2 ELSE m
      sc == IF Mixed(m, Q)
            THEN PressureScale(m, [Q EXCEPT ![1] = e.sol[2]], e.p) (+) PressureScale([m EXCEPT !.EOS = m.MP2.EOS] , Q, e.p)
            ELSE PressureScale(m, Q, e.p)
      tol == IF Mixed(m, Q) THEN FS("1e-9") ELSE FS("1e-11")
  IN Req("length of the state", Len(Q) = NV)
     \cup (IF Len(Q) # NV THEN {} ELSE
       Req("density, momentum, distortion, impulse and concentration", Built(e.r, e.p, e.v, e.A, e.J, e.lam, Q))
       \cup Req("pressure as the solver computes it", FClose(e.solver, e.p, F0, tol (.) e.ps))
       \cup Req("energy",
              \/ Mixed(m, Q)
              \/ LET E == EofRP(one, e.r, e.p) (+) (E3(e.v) (+) E2A(m, e.r, e.A))
                     E1 == IF THERMAL THEN E (+) E2J(m, e.J) ELSE E
                     E2 == IF MULTI /\ m.REACTION > -1 THEN E1 (+) ER(m, e.lam) ELSE E1
                 IN FClose(Q[2], e.r (.) E2, F0, (FS("1e-11") (.) e.ps) (/) FAbs(Gru(one, e.r)))))

Near(x, y, t, s) == VClose(x, y, F0, t (.) (s (+) VMaxAbs(y)))
MNear(X, Y, t, s) == \A k \in DOMAIN Y : FLe(VMaxAbs(VSub(X[k], Y[k])), t (.) (s (+) MMaxAbs(Y))) /\ VFinite(X[k])

StateEv(e) ==
  LET m == e.m  Q == e.Q  g == e.got
      r == Q[1]  A == Dist(Q)  p == e.p
      one == Other1(m, Q)
      pure == ~m.MULTI \/ FLe(F1, Lam(Q))
      ps == e.ps
      Ts == (FAbs(m.Tref (.) IntFactor(m, r))) (+) (ps (/) (r (.) (FAbs(Gru(m, r)) (.) m.cv)))
      Es == ps (/) (r (.) (r (.) FAbs(Gru(m, r))))
      h == FS("1e-3") (.) r
      kink == m.EOS = SMG /\ FLt(FAbs((r (/) m.rho0) (-) F1), FS("3e-3"))
      sg == StressOf(m, r, A)
      ss == (r (.) Cs2(m, r)) (.) Sq(FrobSq(A))      \* of stresses
      cs == Cs2(m, r)
  IN Req("density, energy per mass, velocity", g.r = r /\ Same(g.E, Q[2] (/) r) /\ VClose(g.v, Vel(Q), FS("1e-15"), F0))
     \cup Req("distortion", g.A = A)
     \cup Req("metric", MNear(g.G, Metric(A), FS("1e-13"), F0))
     \cup (IF THERMAL THEN Req("impulse", VClose(g.J, Imp(Q), FS("1e-15"), F0)) ELSE {})
     \cup (IF MULTI THEN Req("concentration", Same(g.lam, Lam(Q))) ELSE {})
     \cup Req("pressure", Mixed(m, Q) \/ FClose(g.p, IF one THEN FMax(F0, PofRE(m.MP2, r, MicroEnergy(m, Q)))
                                           ELSE Pressure1(m, Q), F0, FS("1e-10") (.) ps)
                                    \/ (m.MULTI /\ g.p = F0 /\ FLt(Pressure1(m, Q), F0)))
     \cup Req("temperature", Mixed(m, Q) \/ one \/ m.MULTI \/ FClose(g.T, Temperature1(m, Q), F0, FS("1e-9") (.) Ts))
     \cup Req("stress", MNear(g.sig, sg, FS("1e-12"), ss))
     \cup Req("total stress", MNear(g.Sig, MSub(MScale(g.p, MId(3)), sg), FS("1e-12"), ss))
     \cup Req("derivative of the stress by the density",
              MNear(g.dsdr, Rows(VDiff(LAMBDA x : Flat(StressOf(m, x, A)), r, h), 3), FS("1e-8"), ss (/) r))
     \cup UNION { Req("derivative of the stress by the distortion",
                      MNear(g.dsdA[(3 * (k - 1)) + l], StressByA(m, r, A, k, l, FS("1e-3") (.) MMaxAbs(A)), FS("1e-8"),
                            ss (/) MMaxAbs(A))) : k \in 1..3, l \in 1..3 }
     \cup Req("derivative of the energy by the density",
              Mixed(m, Q) \/ one
              \/ FClose(g.dEdr, Diff(LAMBDA x : EnergyOf(m, x, g.p, A), r, h), IF kink THEN FS("1e-2") ELSE FS("1e-6"),
                        FS("1e-7") (.) Es))
     \cup Req("derivative of the energy by the pressure", FClose(g.dEdp, F1 (/) (r (.) Gru(m, r)), FS("1e-13"), F0))
     \cup Req("derivative of the energy by the distortion at constant pressure",
              MNear(g.dEdA, MScale(C0(m, r), AdevG(A)), FS("1e-12"), cs (.) FrobSq(A)))
     \cup Req("derivative of the energy by the distortion", MNear(g.psi, MScale(cs, AdevG(A)), FS("1e-12"), cs (.) FrobSq(A)))
     \cup (IF THERMAL
           THEN Req("derivative of the energy by the impulse", VClose(g.H, VScale(m.cal2, Imp(Q)), FS("1e-14"), F0))
                \cup Req("heat flux", VClose(g.q, VScale(m.cal2 (.) g.T, Imp(Q)), FS("1e-13"), F0))
                \cup Req("1 / theta2", FClose(g.th2, g.T (/) (m.kappa (.) r), FS("1e-13"), F0))
           ELSE {})
     \cup Req("derivative of the temperature by the density",
              Mixed(m, Q) \/ one
              \/ FClose(g.dTdr, Diff(LAMBDA x : TofRP(m, x, g.p), r, h), IF kink THEN FS("1e-2") ELSE FS("1e-6"),
                        FS("1e-7") (.) (Ts (/) r)))
     \cup Req("derivative of the temperature by the pressure",
              FClose(g.dTdp, F1 (/) (r (.) (Gru(m, r) (.) m.cv)), FS("1e-13"), F0))
     \cup Req("1 / theta1", FClose(g.th1, Theta1Inv(m, Q), FS("1e-6"), F0) \/ FLt(MMaxAbs(sg), FS("1e-9") (.) ss))
     \cup Req("body force", g.f = m.dp)
     \cup (IF MULTI /\ m.REACTION > -1
           THEN LET near == m.REACTION = 0 /\ FClose(g.T, m.Ti, FS("1e-6"), F0)
                    a == FractionOf(Q, e.sol[2])
                    big == FS("1e-5") (.) FAbs(g.K)
                IN Req("rate of reaction", near \/ FClose(g.K, Rate(m, Q, a), FS("1e-5"), FS("1e-300")))
           ELSE {})
     \cup (IF FLt(F0, m.sigY) THEN Req("plastic deformation", FClose(g.pd, VonMises(sg) (/) m.sigY, FS("1e-6"),
                                          FS("1e-9") (.) (ss (/) m.sigY))) ELSE {})

\* the sound speeds
SpeedEv(e) ==
  LET m == e.m  r == e.r
      h == r (.) FS("1e-3")
      er == Diff(LAMBDA x : EnergyOf(m, x, e.p, e.A), r, h)
      c2 == ((e.p (/) Sq(r)) (-) er) (.) (r (.) Gru(m, r))
      kink == m.EOS = SMG /\ FLt(FAbs((r (/) m.rho0) (-) F1), FS("3e-3"))
  IN Req("sound speed", FClose(Sq(e.c0), c2, IF kink THEN FS("1e-2") ELSE FS("1e-5"), F0))
     \cup Req("longitudinal speed", FClose(Sq(e.cinf), Sq(e.c0) (+) (FQ(4, 3) (.) Cs2(m, r)), FS("1e-12"), F0))
     \cup Req("heat wave speed", FClose(Sq(e.ch) (.) Sq(r), m.cal2 (.) (e.T (/) m.cv), FS("1e-12"), F0))

HyperEv(e) ==
  LET h == e.h  Q == e.Q  A == Dist(Q)  r == Q[1]
      m == AsMaterial(h, e.m)
      E == HyperEnergy(h, A, e.S, Vel(Q))
      big == FAbs(ColdEnergy(h, A)) (+) (FAbs(HeatEnergy(h, A, e.S)) (+) (FAbs(ShearEnergy(h, A)) (+) E3(Vel(Q))))
      st == HyperStress(h, r, A, e.S)
      ss == r (.) (Sq(h.c0) (+) big)
  IN Req("density", FClose(r (.) MDet3(e.F), h.rho0, FS("1e-13"), F0))
     \cup Req("distortion is the inverse of the deformation", MNear(MMul(A, e.F), MId(3), FS("1e-12"), F0))
     \cup Req("momentum", VClose(SubSeq(Q, 3, 5), VScale(r, e.v), FS("1e-14"), F0))
     \cup Req("energy", FClose(Q[2] (/) r, E, F0, FS("1e-12") (.) big))
     \cup Req("entropy of the energy", FClose(e.back, e.S, F0, FS("1e-9") (.) (FAbs(e.S) (+) ((big (/) h.T0) (+) h.cv))))
     \cup Req("temperature", FClose(e.T, Diff(LAMBDA x : HeatEnergy(h, A, x), e.S, FS("1e-3") (.) h.cv), FS("1e-7"), F0))
     \cup Req("stress", MNear(e.stress, st, FS("1e-8"), ss))
     \cup Req("pressure", FClose(e.p, (Trace3(StressOf(m, r, A)) (-) Trace3(st)) (/) F3, F0, FS("1e-7") (.) ss))
     \cup Req("pressure as the solver computes it",
              FClose(e.solver, e.p, F0, FS("1e-9") (.) ((r (.) (big (+) Sq(h.c0))) (.) (F1 (+) h.gamma)))
              /\ FClose(e.solver, Pressure1(m, Q), F0, FS("1e-9") (.) ((r (.) (big (+) Sq(h.c0))) (.) (F1 (+) h.gamma))))

IndexEv(e) == Req("material of a cell", e.index = MaterialIndex(e.Q))

EventFaults(e) ==
  CASE e.ev = "params" -> ParamsEv(e)
    [] e.ev = "hyperparams" -> HyperParamsEv(e)
    [] e.ev = "cvec" -> CvecEv(e)
    [] e.ev = "state" -> StateEv(e)
    [] e.ev = "speeds" -> SpeedEv(e)
    [] e.ev = "hyper" -> HyperEv(e)
    [] e.ev = "index" -> IndexEv(e)
=============================================================================
