------------------------------- MODULE MC_Star -------------------------------
(***************************************************************************)
(* The Riemann problem of two materials over a lattice of pairs of states.  *)
(* A step computed from the definition - the jumps of the velocities are    *)
(* the unknowns of the interface conditions, the rest follows along the     *)
(* leaving waves - is a step in the sense of the module Star (on which the  *)
(* validation of the implementation rests); steps lead to states that meet  *)
(* the conditions; contacts stay; and there is no direction and no frame.   *)
(***************************************************************************)
EXTENDS Star, Lattice, Symmetry

CONSTANTS Deep,        \* more pairs of materials
          Arriving      \* faulty design: the wave of the right side comes in

VARIABLES lawL, lawR, a, b, v, dp, ready
vars == << lawL, lawR, a, b, v, dp, ready >>
given == << lawL, lawR, a, b, v, dp >>
Some == IF Deep THEN Laws ELSE {"gas", "copper", "liquid"}
Init ==
  /\ ready = FALSE
  /\ lawL \in Some /\ lawR \in Some \cup {"vacuum"}
  /\ (lawR = "vacuum" => lawL \in {"copper", "metal"})      \* a gas next to a vacuum has no rest state
  /\ a \in {0, 5} /\ b \in {0, 3} /\ v \in { << 0, 0, 0 >>, << 2, -1, 1 >> } /\ dp \in {0, 10}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

Nothing == [EOS |-> VACUUM, T0 |-> F1] @@ RawPar
Mat(l) == IF l = "vacuum" THEN Nothing ELSE [T0 |-> F1] @@ MaterialOf(l, "solid")
mL == Mat(lawL)
mR == Mat(lawR)
StateOf(m, x, w, p) ==
  LET u == Build(3, LAMBDA k : FQ(w[k], 50))
      A == DistortionOf(x, F1)
      J == << FQ(x, 100), F0, F0 >>
  IN << m.rho0, m.rho0 (.) TotalEnergy(m, m.rho0, p, u, A, J, F1) >> \o VScale(m.rho0, u) \o Flat(A)
     \o (IF THERMAL THEN VScale(m.rho0, J) ELSE << >>)
QL == StateOf(mL, a, v, FQ(100 + dp, 100))
QR == IF Vacuum(mR) THEN VZero(NV) ELSE StateOf(mR, b, << 0, 0, 0 >>, F1)
Ones == Build(NV, LAMBDA k : F1)

\* conserved variables of primitive ones (columns of A first)
Conserved(m, P) ==
  LET A == Build(3, LAMBDA r : Build(3, LAMBDA c : P[2 + 3 * (c - 1) + r]))
      w == SubSeq(P, 12, 14)
      J == IF THERMAL THEN SubSeq(P, 15, 17) ELSE << >>
  IN << P[1], P[1] (.) TotalEnergy(m, P[1], P[2], w, A, J, F1) >> \o VScale(P[1], w) \o Flat(A)
     \o (IF THERMAL THEN VScale(P[1], J) ELSE << >>)

n == Len(Driven(1))
\* the square root of T
Root(T) ==
  LET half == Build(2 * n, LAMBDA r : Build(2 * n, LAMBDA c :
                IF r <= n THEN (IF c = n + r THEN F1 ELSE F0) ELSE IF c <= n THEN T[r - n][c] ELSE F0))
  IN MT(Build(n, LAMBDA c : SubSeq(MAbsVec(half, VZero(n) \o MId(n)[c]), n + 1, 2 * n)))
Half1(m, Q) ==
  LET M == PrimitiveMatrix(m, Q, 1, Ones, Ones)
      X1 == Minor(M, Driven(1), Others(1))
      X2 == Minor(M, Others(1), Driven(1))
      T == MMul(X1, X2)
  IN [C |-> Root(T), X2T |-> MMul(X2, MInv(T)),
      x |-> Traction(m, Q) \o (IF THERMAL THEN << Temperature1(m, Q) >> ELSE << >>),
      w |-> Build(n, LAMBDA k : IF k = 4 THEN m.cal2 (.) Imp(Q)[1] ELSE Vel(Q)[k]),
      f |-> IF THERMAL THEN << F1, F1, F1, m.cal2 >> ELSE << F1, F1, F1 >>]
Apply(m, Q, h, w, s) ==
  LET push == VScale(FI(0 - s), MVec(h.C, w))
      z == MVec(h.X2T, push)
      P == Primitives(m, Q)
      ix(S, k) == CHOOSE j \in DOMAIN S : S[j] = k
      in(S, k) == \E j \in DOMAIN S : S[j] = k
  IN Conserved(m, Build(NV, LAMBDA k : P[k] (+) (IF in(Driven(1), k) THEN w[ix(Driven(1), k)] ELSE z[ix(Others(1), k)])))
Row(k) == MId(n)[k]
\* << new left state, new right state >>
StarStep(L, R) ==
  LET l == Half1(mL, L) IN
  IF Vacuum(mR)
  THEN LET heat == [k \in 1..n |-> k = 4]        \* no heat flux instead of a temperature
           M == Build(n, LAMBDA k : IF heat[k] THEN VScale(l.f[4], Row(4)) ELSE VScale(L[1], l.C[k]))
           y == Build(n, LAMBDA k : << IF heat[k] THEN FNeg(l.w[4]) ELSE l.x[k] >>)
       IN << Apply(mL, L, l, MT(MSolve(M, y))[1], 1), R >>
  ELSE
  LET r == Half1(mR, R)
      sr == IF Arriving THEN 1 ELSE -1
      tl(k) == VScale(FNeg(L[1]), l.C[k])          \* traction k of the linearised state, less that before
      tr(k) == VScale(FI(0 - sr) (.) R[1], r.C[k])
      slips(k) == ~STICK /\ k \in {2, 3}
      M == Build(n, LAMBDA k : IF slips(k) THEN tl(k) \o VZero(n) ELSE tl(k) \o VNeg(tr(k)))
           \o Build(n, LAMBDA k : IF slips(k) THEN VZero(n) \o tr(k)
                                  ELSE VScale(l.f[k], Row(k)) \o VScale(FNeg(r.f[k]), Row(k)))
      y == Build(n, LAMBDA k : << IF slips(k) THEN FNeg(l.x[k]) ELSE r.x[k] (-) l.x[k] >>)
           \o Build(n, LAMBDA k : << IF slips(k) THEN FNeg(r.x[k]) ELSE r.w[k] (-) l.w[k] >>)
      w == MT(MSolve(M, y))[1]
  IN << Apply(mL, L, l, SubSeq(w, 1, n), 1), Apply(mR, R, r, SubSeq(w, n + 1, 2 * n), -1) >>

RECURSIVE Steps(_, _)
Steps(s, k) == IF k = 0 THEN s ELSE Steps(StarStep(s[1], s[2]), k - 1)
One == StarStep(QL, QR)
Miss(s) == Mismatch(mL, mR, s[1], s[2])

IsStep ==
  /\ Leaving(Side(mL, QL, One[1], Ones, Ones, 1), FS("1e-5"))
  /\ Vacuum(mR) \/ Leaving(Side(mR, QR, One[2], Ones, Ones, -1), FS("1e-5"))
\* the tractions also depend on the impulse, which is not linearised; large jumps of temperature take more steps
Meets ==
  (THERMAL => FLt(Miss(<< QL, QR >>), FQ(1, 5))) =>
  FLe(Miss(Steps(<< QL, QR >>, 6)), FS(IF THERMAL THEN "1e-3" ELSE "1e-7") (.) FMax(F1, Miss(<< QL, QR >>)))
Close(m, x, y, t) == VCloseS(x, y, Build(NV, LAMBDA k : IF k \in 6..14 THEN F1 ELSE m.rho0), t)
Rest ==       \* nothing happens where the conditions hold
  FLe(Miss(<< QL, QR >>), FS("1e-13")) => Close(mL, One[1], QL, FS("1e-9")) /\ (Vacuum(mR) \/ Close(mR, One[2], QR, FS("1e-9")))
Moving ==
  Vacuum(mR) \/
  LET w == << 15, 5, -5 >>
      plus(x) == [k \in 1..3 |-> x[k] + w[k]]
      to(m, Q) == LET P == Primitives(m, Q) IN Conserved(m, [k \in 1..NV |->
                    IF k \in 12..14 THEN P[k] (+) FQ(w[k - 11], 50) ELSE P[k]])
      s == StarStep(StateOf(mL, a, plus(v), FQ(100 + dp, 100)), StateOf(mR, b, w, F1))
  IN Close(mL, s[1], to(mL, One[1]), FS("1e-6")) /\ Close(mR, s[2], to(mR, One[2]), FS("1e-6"))
\* small jumps between isotropic states: the acoustic pressure
Acoustic ==
  a = 0 /\ b = 0 /\ v = << 0, 0, 0 >> /\ ~Vacuum(mR) /\ ~THERMAL =>
    LET Z(m) == m.rho0 (.) FSqrt(SoundSpeed2(m, m.rho0, F1) (+) (FQ(4, 3) (.) Cs2(m, m.rho0)))
        j == FQ(dp, 100)
        p == F1 (+) ((j (.) Z(mR)) (/) (Z(mL) (+) Z(mR)))
    IN FClose(Traction(mL, One[1])[1], p, F0, FS("1e-6") (+) (FI(3) (.) Sq(j)))
Holds == ready => IsStep /\ Meets /\ Rest /\ Moving /\ Acoustic
=============================================================================
