----------------------------- MODULE T_Closure -----------------------------
(* Trace specification: the closure relations of one cell *)
EXTENDS GPR, TraceBase

\* magnitude of the terms that cancel in the pressure of Q
PScale(m, Q) ==
  LET r == Q[1] IN
  FAbs(PRef(m, r)) (+)
  ((r (.) FAbs(Gru(m, r))) (.)
   (FAbs(Q[2] (/) r) (+) (E3(Vel(Q)) (+) (FAbs(ERef(m, r)) (+) FAbs(E2A(m, r, Dist(Q)))))))

\* energy as a function of the density alone, at the pressure and the distortion of Q
EofRho(m, p, A, r) == EofRP(m, r, p) (+) E2A(m, r, A)

\* where the second derivative of a reference curve jumps, differences lose accuracy
Kink(m, r) == m.EOS = SMG /\ FLt(FAbs((r (/) m.rho0) (-) F1), FS("3e-3"))

Pressure_(e) ==
  LET m == e.m  Q == e.Q  sc == PScale(m, Q) IN
  Req("pressure", FClose(e.p, Pressure1(m, Q), F0, FS("1e-11") (.) sc))
  \cup Req("energy of pressure",   \* the pressure reproduces the energy
      FClose(Q[2], Q[1] (.) TotalEnergy(m, Q[1], e.p, Vel(Q), Dist(Q),
                                        IF THERMAL THEN Imp(Q) ELSE <<F0, F0, F0>>,
                                        IF MULTI /\ m.REACTION > -1 THEN Lam(Q) ELSE F1),
             F0, (FS("1e-11") (.) sc) (/) FAbs(Gru(m, Q[1]))))
  \cup Req("temperature",
      FClose(e.T, TofRP(m, Q[1], e.p), F0,
             FS("1e-10") (.) ((FAbs(m.Tref (.) IntFactor(m, Q[1])))
                              (+) (sc (/) FAbs(Q[1] (.) (Gru(m, Q[1]) (.) m.cv))))))
  \cup Req("energy derivative",
      FClose(e.dEdr, Diff(LAMBDA x : EofRho(m, e.p, Dist(Q), x), Q[1], FS("1e-3") (.) Q[1]),
             IF Kink(m, Q[1]) THEN FS("1e-2") ELSE FS("1e-6"), FS("1e-7") (.) (sc (/) FAbs(Q[1] (.) (Q[1] (.) Gru(m, Q[1]))))))

TempMG(e) ==
  Req("temperature of density and pressure",
      FClose(e.T, TofRP(e.m, e.r, e.p), F0,
             FS("1e-12") (.) ((FAbs(e.m.Tref (.) IntFactor(e.m, e.r)))
                (+) ((FAbs(e.p) (+) FAbs(PRef(e.m, e.r)))
                     (/) FAbs(e.r (.) (Gru(e.m, e.r) (.) e.m.cv))))))

EventFaults(e) ==
  CASE e.ev = "pressure" -> Pressure_(e)
    [] e.ev = "tempmg" -> TempMG(e)
=============================================================================
