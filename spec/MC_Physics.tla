----------------------------- MODULE MC_Physics -----------------------------
(***************************************************************************)
(* The physics of the specification itself, over a lattice of states of one *)
(* material per law: the closure is invertible and thermodynamically        *)
(* consistent, stress is the derivative of the energy, relaxation never     *)
(* destroys entropy and keeps volume, the fluxes are Galilean, and signals  *)
(* of an isotropic state travel at the textbook speeds.                     *)
(***************************************************************************)
EXTENDS Waves, Lattice

CONSTANTS Deep,        \* more states
          Factor       \* faulty design: the temperature of Mie-Grueneisen laws leaves out the isentrope

VARIABLES law, kind, r, p, v, a, d, ready
vars == << law, kind, r, p, v, a, d, ready >>
given == << law, kind, r, p, v, a, d >>

Init ==
  /\ ready = FALSE
  /\ law \in Laws /\ kind \in Kinds_
  /\ r \in (IF Deep THEN {70, 90, 100, 115, 130} ELSE {90, 115})
  /\ p \in (IF Deep THEN {0, 1, 5} ELSE {1})
  /\ v \in { << 0, 0, 0 >>, << 1, -2, 3 >> }
  /\ a \in (IF Deep THEN 0..6 ELSE {0, 3, 5})
  /\ d \in (IF Deep THEN 1..3 ELSE {1, 3})
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given     \* so that workers share the states
Spec == Init /\ [][Next]_vars

m == MaterialOf(law, kind)
rho == FQ(r, 100) (.) m.rho0
pr == FI(p)
vel == Build(3, LAMBDA k : FQ(v[k], 2))
Dst == DistortionOf(a, rho (/) m.rho0)
J0 == << FQ(1, 5), F0, FQ(-1, 3) >>
StateOf(w, A) ==
  << rho, rho (.) TotalEnergy(m, rho, pr, w, A, J0, F1) >> \o VScale(rho, w) \o Flat(A)
  \o (IF THERMAL THEN VScale(rho, J0) ELSE << >>)
Q == StateOf(vel, Dst)

RoundTrip == Near(Pressure1(m, Q), pr, FS("1e-11")) /\ Near(PofRE(m, rho, EofRP(m, rho, pr)), pr, FS("1e-12"))
\* along an isentrope dT/drho = Gamma T / rho
f(x) == IF Factor THEN F1 ELSE IntFactor(m, x)
Isentrope == Near(rho (.) Diff(LAMBDA x : f(x), rho, rho (.) FS("1e-3")), Gru(m, rho) (.) f(rho), FS("1e-8"))
\* the reference curve is an isentrope, or a Hugoniot curve
Reference ==
  IF m.EOS = SMG
  THEN FLt(rho, m.rho0) \/ Near(ERef(m, rho), Half (.) (PRef(m, rho) (.) ((F1 (/) m.rho0) (-) (F1 (/) rho))), FS("1e-12"))
  ELSE Near(Sq(rho) (.) Diff(LAMBDA x : ERef(m, x), rho, rho (.) FS("1e-3")), PRef(m, rho), FS("1e-8"))
\* T ds = de + p dv has an integral: (de/drho at T - p/rho^2) / T is independent of T
Complete ==
  m.EOS # SMG =>
    LET e(x, T) == ERef(m, x) (+) (m.cv (.) (T (-) (m.Tref (.) f(x))))
        pT(x, T) == PRef(m, x) (+) ((x (.) (Gru(m, x) (.) m.cv)) (.) (T (-) (m.Tref (.) f(x))))
        g(T) == (Diff(LAMBDA x : e(x, T), rho, rho (.) FS("1e-3")) (-) (pT(rho, T) (/) Sq(rho))) (/) T
    IN Near(g(F1), g(FI(5)), FS("1e-7"))

dEdA == Build(9, LAMBDA k :
          Diff(LAMBDA x : E2A(m, rho, Rows([Flat(Dst) EXCEPT ![k] = x], 3)), Flat(Dst)[k], FS("1e-3")))
\* sigma = - rho A^T dE/dA
StressIsDerivative ==
  LET s == MScale(FNeg(rho), MMul(MT(Dst), Rows(dEdA, 3)))
  IN FLe(MMaxAbs(MSub(s, Sigma(m, Q))), FS("1e-9"))
\* relaxation turns shear and thermal energy into heat, and keeps the volume
SecondLaw ==
  /\ FLe(VDot(dEdA, SubSeq(Source(m, Q), 6, 14)), FS("1e-9"))
  /\ THERMAL /\ FLt(F0, Temperature1(m, Q)) => FLe(VDot(J0, SubSeq(Source(m, Q), 15, 17)), F0)
VolumeKept == a # 0 =>
  LET B == MMul(MInv(Dst), Rows(SubSeq(Source(m, Q), 6, 14), 3))
  IN FLe(FAbs(Trace3(B)), FS("1e-11") (.) (F1 (+) MMaxAbs(B)))
\* an observer moving at -w
Galilean ==
  LET w == << F1, FI(-1), Half >>
      Qw == StateOf(VAdd(vel, w), Dst)
      F == Flux(m, Q, d)
      G == Flux(m, Qw, d)
      mom == Build(3, LAMBDA k : F[2 + k] (+) (w[k] (.) F[1]) (+) (w[d] (.) Qw[2 + k]))
  IN /\ Near(G[1], F[1] (+) (w[d] (.) rho), FS("1e-11"))
     /\ VClose(SubSeq(G, 3, 5), mom, FS("1e-11"), FS("1e-11"))
     /\ Near(G[2], F[2] (+) VDot(w, SubSeq(F, 3, 5)) (+) (Half (.) (VDot(w, w) (.) F[1])) (+) (w[d] (.) Qw[2]),
             FS("1e-10"))
     /\ VClose(SubSeq(Source(m, Qw), 6, 14), SubSeq(Source(m, Q), 6, 14), FS("1e-7"), FS("1e-7"))
\* longitudinal waves of an isotropic state
Textbook ==
  a = 0 /\ ~THERMAL =>
    LET c2 == SoundSpeed2(m, rho, pr)
        g == FPow(rho (/) m.rho0, FQ(2, 3))
        cl == FSqrt(c2 (+) (FQ(4, 3) (.) (Cs2(m, rho) (.) Sq(g))))
        sc == << rho, FAbs(Q[2]) (+) F1 >> \o Build(3, LAMBDA k : rho) \o Build(9, LAMBDA k : F1)
    IN FLt(F0, c2) => Near(MSpecRad(Scaled(SystemMatrix(m, Q, d, sc), sc)), FAbs(vel[d]) (+) cl, FS("1e-5"))
Closure == ready =>
  /\ RoundTrip
  /\ Isentrope
  /\ Reference
  /\ Complete
Equations == ready =>
  /\ StressIsDerivative
  /\ SecondLaw
  /\ VolumeKept
  /\ Galilean
Signals == ready => Textbook
=============================================================================
