------------------------------- MODULE MC_Flux -------------------------------
(***************************************************************************)
(* Interface fluxes of the specification over pairs of lattice states:      *)
(* equal states give twice the flux and no jump term; exchanging the states *)
(* turns the dissipation and the jump term around; mirroring the axis turns *)
(* the flux around; and from isotropic states Rusanov's dissipation of the  *)
(* kinetic energy of small jumps is not less than the others'.              *)
(***************************************************************************)
EXTENDS Fluxes, Lattice, Symmetry

CONSTANT OneSided     \* faulty design: the wave speed of the left state only

VARIABLES law, a, b, v, d, scheme, ready
vars == << law, a, b, v, d, scheme, ready >>
given == << law, a, b, v, d, scheme >>
Init ==
  /\ ready = FALSE
  /\ law \in Laws /\ a \in {0, 3, 5} /\ b \in {0, 4, 5} /\ v \in { << 0, 0, 0 >>, << 1, -2, 3 >> } /\ d \in {1, 3}
  /\ scheme \in {"rusanov", "roe", "osher"}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

m == MaterialOf(law, "viscous")
State(x, w, r, p) ==
  LET rho == FQ(r, 100) (.) m.rho0  u == Build(3, LAMBDA k : FQ(w[k], 4))
      J == << FQ(x, 20), FQ(-1, 10), F0 >> IN
  << rho, rho (.) TotalEnergy(m, rho, p, u, DistortionOf(x, FQ(r, 100)), J, F1) >> \o VScale(rho, u)
  \o Flat(DistortionOf(x, FQ(r, 100))) \o (IF THERMAL THEN VScale(rho, J) ELSE << >>)
  \o (IF LSET > 0 THEN Build(LSET, LAMBDA k : FI(k + x)) ELSE << >>)
QL == State(a, v, 110, F1)
QR == State(b, << 0, 0, 0 >>, 100, F2)
Pair(L, R) == [m |-> m, L |-> L, R |-> R, d |-> d, scheme |-> scheme,
               sc |-> << m.rho0, FAbs(QL[2]) (+) FAbs(QR[2]) >> \o Build(3, LAMBDA k : m.rho0)
                      \o Build(NV - 5, LAMBDA k : F1)]
Faulty(e) == IF OneSided /\ scheme = "rusanov"
             THEN [e EXCEPT !.scheme = "left"] ELSE e
Diss(e) == IF e.scheme = "left"
           THEN VScale(Speed(e, e.L), Build(NV, LAMBDA k : (e.L[k] (-) e.R[k]) (/) e.sc[k]))
           ELSE Dissipation(e)
Small(x, y) == FLe(VMaxAbs(VSub(x, y)), FS("1e-5") (.) (F1 (+) VMaxAbs(y)))
\* complex averages have no unique absolute value; they do not occur on this lattice with Rusanov
Equal == FEq(VMaxAbs(Diss(Faulty(Pair(QL, QL)))), F0) /\ FEq(VMaxAbs(Jump(Pair(QL, QL))), F0)
Exchange ==
  /\ Small(Diss(Faulty(Pair(QL, QR))), VNeg(Diss(Faulty(Pair(QR, QL)))))
  /\ Small(Jump(Pair(QL, QR)), VNeg(Jump(Pair(QR, QL))))
Mirror ==
  LET s == [k \in 1..3 |-> IF k = d THEN -1 ELSE 1]
      p == << 1, 2, 3 >>
      M(q) == Seq_(TurnState(p, s, q))
  IN /\ Small(Diss(Faulty(Pair(M(QR), M(QL)))), VNeg(M(Diss(Faulty(Pair(QL, QR))))))
     /\ Small(Jump(Pair(M(QR), M(QL))), M(Jump(Pair(QL, QR))))
     /\ Small(Interface(Pair(M(QR), M(QL))), VNeg(M(Interface(Pair(QL, QR)))))
Holds == ready => Equal /\ Exchange /\ Mirror
=============================================================================
