------------------------------- MODULE MC_Keep -------------------------------
(***************************************************************************)
(* Maintenance of the distortion over the lattice: rescaling is idempotent  *)
(* and gives the determinant that goes with the density; the reset takes    *)
(* the shear energy and nothing else; the strain that triggers it is an     *)
(* invariant of rotations of the frame and of the material, and is zero     *)
(* after the reset only.                                                    *)
(***************************************************************************)
EXTENDS Loop, Lattice

CONSTANT Forget       \* faulty design: the reset leaves the total energy

VARIABLES law, r, a, det, ready
vars == << law, r, a, det, ready >>
given == << law, r, a, det >>
Init ==
  /\ ready = FALSE
  /\ law \in Laws /\ r \in {70, 90, 100, 130} /\ a \in 0..6 /\ det \in {50, 100, 120}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

m == MaterialOf(law, "viscous")
rho == FQ(r, 100) (.) m.rho0
v == << F1, FI(-2), Half >>
Q == LET A == DistortionOf(a, FQ(det, 100) (.) FQ(r, 100)) IN
     << rho, rho (.) TotalEnergy(m, rho, F1, v, A, << >>, F0) >> \o VScale(rho, v) \o Flat(A)
     \o (IF LSET > 0 THEN Build(LSET, LAMBDA k : F1) ELSE << >>)
K == Rescaled(m, Q)
Reset == IF Forget THEN [Relaxed(m, Q) EXCEPT ![2] = Q[2]] ELSE Relaxed(m, Q)
Rest(q) == SubSeq(q, 1, 5) \o SubSeq(q, 15, NV)
Rot == << << FQ(3, 5), FQ(-4, 5), F0 >>, << FQ(4, 5), FQ(3, 5), F0 >>, << F0, F0, F1 >> >>
Turned(A) == Flat(MMul(Rot, A))
Rescaling ==
  /\ Near(MDet3(Dist(K)), rho (/) m.rho0, FS("1e-12"))
  /\ VClose(Rescaled(m, K), K, FS("1e-13"), FS("1e-13")) /\ Rest(K) = Rest(Q)
  /\ Near(Strain(K), Strain(Q), FS("1e-12"))
Resetting ==
  /\ Near(MDet3(Dist(Reset)), rho (/) m.rho0, FS("1e-12"))
  /\ Near(Pressure1(m, Reset), Pressure1(m, Q), FS("1e-10"))
  /\ Vel(Reset) = Vel(Q) /\ Reset[1] = Q[1] /\ LevelSets(Reset) = LevelSets(Q)
  /\ Near(Strain(Reset), F0, FS("1e-12")) /\ MMaxAbs(Sigma(m, Reset)) # F1
  /\ FLe(MMaxAbs(Sigma(m, Reset)), FS("1e-12"))
  /\ VClose(Relaxed(m, Reset), Reset, FS("1e-12"), FS("1e-12"))
Straining ==
  /\ FLe(FS("-1e-12"), Strain(Q)) /\ (a # 0 => FLt(FS("1e-4"), Strain(Q)))
  /\ Near(Strain(WithDist(Q, Turned(Dist(Q)))), Strain(Q), FS("1e-12"))
  /\ Near(Strain(WithDist(Q, Flat(MMul(Dist(Q), Rot)))), Strain(Q), FS("1e-12"))
  \* turning the material keeps the metric, hence pressure and stress
  /\ LET q == WithDist(Q, Turned(Dist(Q))) IN
     Near(Pressure1(m, q), Pressure1(m, Q), FS("1e-10"))
     /\ FLe(MMaxAbs(MSub(Sigma(m, q), Sigma(m, Q))), FS("1e-11"))
Holds == ready => Rescaling /\ Resetting /\ Straining
=============================================================================
