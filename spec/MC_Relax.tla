------------------------------ MODULE MC_Relax ------------------------------
(***************************************************************************)
(* The relaxation flow of the specification over a lattice of distortions,  *)
(* materials and times: it is a semigroup, keeps volume and principal axes, *)
(* relaxes monotonically, an elastic solid not at all, and does not depend  *)
(* on the frame; the decay of the thermal impulse is a semigroup, too.      *)
(***************************************************************************)
EXTENDS Relax

CONSTANTS Deep,
          Coarse      \* faulty design: one step of Euler's method

VARIABLES kind, a, T, ready
vars == << kind, a, T, ready >>
given == << kind, a, T >>

Raw == [EOS |-> SG, gamma |-> FQ(7, 5), pINF |-> F0, rho0 |-> F1,
        b02 |-> F2, beta |-> F0, cal2 |-> F2, kappa |-> FQ(1, 10), cv |-> F2, Tref |-> F0,
        mu |-> FQ(1, 10), tau0 |-> F1, sigY |-> FQ(1, 5), n |-> F2, REACTION |-> -1, Qc |-> F0,
        dp |-> VZero(3), SOLID |-> FALSE, POWER_LAW |-> FALSE, BINGHAM |-> FALSE]
m ==
  CASE kind = "viscous" -> [Raw EXCEPT !.n = F1]
    [] kind = "plastic" -> [Raw EXCEPT !.SOLID = TRUE, !.POWER_LAW = TRUE]
    [] kind = "bingham" -> [Raw EXCEPT !.BINGHAM = TRUE]
    [] kind = "thinning" -> [Raw EXCEPT !.POWER_LAW = TRUE, !.n = FQ(1, 2)]
    [] kind = "solid" -> [Raw EXCEPT !.SOLID = TRUE]
Init ==
  /\ ready = FALSE
  /\ kind \in {"viscous", "plastic", "bingham", "thinning", "solid"}
  /\ a \in (IF Deep THEN [1..5 -> {-1, 2}] ELSE { << x, y, 0, z, 0 >> : x, y, z \in {-1, 0, 2} })
  /\ T \in (IF Deep THEN {1, 10, 50} ELSE {1, 10})
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given     \* so that workers share the states
Spec == Init /\ [][Next]_vars

A0 == << FI(10) (+) FI(a[1]), FI(a[4]), F0, FI(a[5]), FI(10) (+) FI(a[2]), F0, FI(a[5]), F0, FI(10) (+) FI(a[3]) >>
Dst == VScale(FCbrt(F1 (/) MDet3(Rows(A0, 3))), A0)
Q == << F1, FI(20) >> \o << F1, F0, FNeg(F1) >> \o Dst
     \o (IF THERMAL THEN << FQ(1, 5), F0, FQ(-1, 3) >> ELSE << >>)
Time == FQ(T, 10)
Flow(q, t) == IF Coarse THEN WithA(q, VAxpy(t, DistRate(m, q), SubSeq(q, 6, 14))) ELSE Advance(m, q, F0, t, F0)
At == Flow(Q, Time)
G0 == UnitMetric(Dist(Q))
G1 == UnitMetric(Dist(At))
\* a Bingham fluid comes to rest on the yield surface
Tol == FS(IF kind = "bingham" THEN "2e-3" ELSE "1e-4")
Semigroup == LET h == Half (.) Time IN VClose(Flow(Flow(Q, h), h), At, F0, Tol)
VolumeKept == FClose(MDet3(Dist(At)), F1, FS("1e-3"), F0)
AxesKept == FLe(MMaxAbs(MSub(MMul(G0, G1), MMul(G1, G0))), FS("1e-5"))
Monotone == FLe(Skew(Dist(At)), Skew(Dist(Q)) (+) FS("1e-12"))
ElasticStays == kind = "solid" => At = Q
RestKept == SubSeq(At, 1, 5) = SubSeq(Q, 1, 5) /\ SubSeq(At, 15, NV) = SubSeq(Q, 15, NV)
\* turning the material beforehand does not matter, turning the frame turns the result
R == << << FQ(3, 5), FQ(-4, 5), F0 >>, << FQ(4, 5), FQ(3, 5), F0 >>, << F0, F0, F1 >> >>
Objective ==
  /\ VClose(Flat(MMul(R, Dist(At))), SubSeq(Flow(WithA(Q, Flat(MMul(R, Dist(Q)))), Time), 6, 14), F0, Tol)
  /\ VClose(Flat(MMul(Dist(At), R)), SubSeq(Flow(WithA(Q, Flat(MMul(Dist(Q), R))), Time), 6, 14), F0, Tol)
\* the impulse: energy is conserved on the way
WithJ(q, s) == [k \in 1..NV |-> IF k \in 15..17 THEN q[k] (.) s ELSE q[k]]
ImpulseSemigroup ==
  THERMAL =>
    LET h == Half (.) Time
        x == ImpulseFactor(m, Q, h)
        y == ImpulseFactor(m, Seq_(WithJ(Q, x)), h)
    IN FClose(x (.) y, ImpulseFactor(m, Q, Time), FS("1e-10"), FS("1e-100")) /\ FLe(F0, x) /\ FLt(x, F1)
Holds == ready =>
  /\ Semigroup
  /\ VolumeKept
  /\ AxesKept
  /\ Monotone
  /\ ElasticStays
  /\ RestKept
  /\ Objective
  /\ ImpulseSemigroup
=============================================================================
