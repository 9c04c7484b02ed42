------------------------------ MODULE T_React ------------------------------
(* Trace specification: mixtures and reactions *)
EXTENDS Mixture, TraceBase

Size(m, r, p) == FMax(FAbs(PRef(m, r)), FAbs(p)) (/) (r (.) FAbs(Gru(m, r)))   \* of specific energies
\* rounding grows as one of the phases vanishes
Loss(Q) == FS("1e-9") (+) (FS("1e-14") (/) FMin(Lam(Q), F1 (-) Lam(Q)))

Balances(e) ==
  LET m == e.m  Q == e.Q  s == e.out
      x == MixtureResiduals(m, Q, s[1], s[2], s[3])
      big == Size(m, s[2], s[1]) (+) Size(m.MP2, s[3], s[1]) (+) FAbs(MicroEnergy(m, Q))
             (+) FAbs(ERef(m, s[2])) (+) FAbs(ERef(m.MP2, s[3]))
      T == FAbs(x[2]) (+) (Size(m, s[2], s[1]) (/) m.cv) (+) (Size(m.MP2, s[3], s[1]) (/) m.MP2.cv)
  IN Req("densities of phases", VFinite(s) /\ FLt(F0, s[2]) /\ FLt(F0, s[3]))
     \cup Req("energies add up", FClose(x[1], MicroEnergy(m, Q), F0, Loss(Q) (.) big))
     \cup Req("temperatures are equal", FClose(x[2], x[3], F0, Loss(Q) (.) T))
     \cup Req("volumes add up", FClose(x[4], F1 (/) Q[1], FS("1e-9"), F0))

Guess(e) == FractionOf(e.Q, e.out[2])

MixtureEv(e) ==
  LET one == Phases(e.m, e.Q, F0)
  IN (IF Mixed(e.m, e.Q) THEN Balances(e)
      ELSE Req("one phase", VClose(e.out, one, FS("1e-9"), FS("1e-10") (.) e.ps)))
     \cup Req("pressure", FClose(e.p, e.out[1], FS("1e-14"), F0))
     \cup Req("temperature", FClose(e.T, IF FLe(Lam(e.Q), F0) THEN TofRP(e.m.MP2, e.out[3], e.out[1])
                                         ELSE TofRP(e.m, e.out[2], e.out[1]), FS("1e-9"), F0))

RateEv(e) ==
  LET r == Rate(e.m, e.Q, Guess(e))
      near == e.m.REACTION = 0 /\ FClose(TemperatureM(e.m, e.Q, Guess(e)), e.m.Ti, FS("1e-6"), F0)
  IN Req("rate of reaction", near \/ FClose(e.rate, r, FS("1e-6"), F0))
     \cup Req("reactant is consumed", FLe(F0, e.rate))

ReactEv(e) ==
  LET m == e.m  Q == e.Q
      x == Q[1] (/) e.out[2]
      l0 == Lam(Q)
      own == React(m, Q, l0, e.dt (/) FI(4), 4, x)
      ref == React(m, Q, l0, e.dt (/) FI(64), 64, x)
      got == Lam(e.Q1)
      tol == FMax(FI(5) (.) FAbs(own (-) ref), FS("1e-7") (.) FMax(F0, FMin(l0, l0 (-) ref)))
  IN Req("only the concentration changes", \A k \in 1..NV : k = LamIx \/ e.Q1[k] = Q[k])
     \cup Req("nothing to react", ~(m.REACTION = -1 \/ FLe(l0, F0)) \/ e.Q1 = Q)
     \cup Req("reactant does not increase", m.REACTION = -1 \/ FLe(got, FMax(l0, F0) (.) FS("1.00000000000001")))
     \cup Req("concentration stays positive", FLe(l0, F0) \/ FLe(F0, got))
     \cup Req("follows the rate law",
              \/ m.REACTION = -1 \/ FLe(l0, F0) \/ FIsNaN(own) \/ FIsNaN(ref)
              \/ FClose(got, ref, F0, tol (+) (FS("1e-12") (.) l0)))

LaunchEv(e) ==     \* a field: cell by cell
  Req("cells react on their own", e.one = e.u1)

\* Jacobians of mixtures
MatNear(X, Y, sc, t) ==
  \A k \in DOMAIN Y :
    LET big == VMaxAbs(VHad(Y[k], sc)) IN
    /\ FLe(VMaxAbs(VSub(VHad(X[k], sc), VHad(Y[k], sc))), (t (.) big) (+) (FS("1e-300")))
    /\ VFinite(X[k])
JacEv(e) ==
  LET m == e.m  Q == e.Q  a == Guess(e)
      JF == Jacobian(LAMBDA q : FluxM(m, q, e.d, a), Q, e.sc)
      JP == Jacobian(LAMBDA q : PrimitivesM(m, q, a), Q, e.sc)
      B == NonConservativeMatrix(m, Q, e.d)
  IN Req("system matrix of a mixture", MatNear(e.M, MAdd(JF, B), e.sc, FS("1e-4")))
     \cup Req("dP/dQ of a mixture", MatNear(e.dPdQ, JP, e.sc, FS("1e-4")))
     \cup Req("dF/dP dP/dQ of a mixture", MatNear(MMul(e.dFdP, e.dPdQ), JF, e.sc, FS("1e-4")))
     \cup Req("flux of a mixture",
              LET f == FluxM(m, Q, e.d, a) IN VCloseS(e.flux, f, e.fs, FS("1e-7")))

EventFaults(e) ==
  CASE e.ev = "mixture" -> MixtureEv(e)
    [] e.ev = "rate" -> RateEv(e)
    [] e.ev = "react" -> ReactEv(e)
    [] e.ev = "launch" -> LaunchEv(e)
    [] e.ev = "jacobian" -> JacEv(e)
=============================================================================
