------------------------------ MODULE MC_Krylov ------------------------------
(***************************************************************************)
(* The linear solver of the specification on every regular system of a      *)
(* small lattice, for all restart lengths and numbers of kept directions:   *)
(* no cycle increases the (preconditioned) residual; what a cycle leaves is *)
(* orthogonal to what its own first direction could still remove; a cycle   *)
(* of as many directions as unknowns solves the system; and positive        *)
(* definite systems are solved by any restarts.                             *)
(***************************************************************************)
EXTENDS Krylov, FiniteSets

CONSTANTS Size, Entries, Deep,
          Skewed       \* faulty design: steps along directions whose images are not orthogonal

VARIABLES rows, rhs, pre, inner, keep, ready
vars == << rows, rhs, pre, inner, keep, ready >>
given == << rows, rhs, pre, inner, keep >>
Entries_ == Entries \cup {0 - k : k \in Entries}
Rights == IF Size = 2 THEN {<< 1, 0 >>, << 1, 1 >>, << 2, -1 >>} ELSE {<< 1, 0, 0 >>, << 1, -1, 2 >>}
Det(r) ==
  IF Size = 2 THEN r[1][1] * r[2][2] - r[1][2] * r[2][1]
  ELSE r[1][1] * (r[2][2] * r[3][3] - r[2][3] * r[3][2]) - r[1][2] * (r[2][1] * r[3][3] - r[2][3] * r[3][1])
       + r[1][3] * (r[2][1] * r[3][2] - r[2][2] * r[3][1])
\* in the larger size, rows of few kinds
Row == IF Size = 2 THEN Entries_ \X Entries_
       ELSE { r \in Entries_ \X Entries_ \X Entries_ : Deep \/ r[1] + r[2] + r[3] \in {0, 1, 3} }
Systems == IF Size = 2 THEN { r \in Row \X Row : Det(r) # 0 } ELSE { r \in Row \X Row \X Row : Det(r) # 0 }
Init ==
  /\ ready = FALSE
  /\ rows \in Systems /\ rhs \in Rights /\ pre \in {1, 2} /\ inner \in 1..Size /\ keep \in 0..2
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

A == Build(Size, LAMBDA r : Build(Size, LAMBDA c : FI(rows[r][c])))
b == Build(Size, LAMBDA k : FI(rhs[k]))
M == Build(Size, LAMBDA r : Build(Size, LAMBDA c : IF r = c THEN FQ(IF r = 1 THEN pre ELSE 1, 2) ELSE F0))
x0 == VZero(Size)
Left(x) == MVec(M, Residual(A, b, x))
Tol == FS("1e-11")
Many == Cycles(A, M, b, << x0 >>, << >>, Tol, inner, keep, 6)

\* the faulty cycle with one kept direction
Oblique(x, outer) ==
  LET g == Left(x)
      w(z) == MVec(M, MVec(A, z))
      part(z) == VScale(VDot(w(z), g) (/) VDot(w(z), w(z)), z)
  IN VAdd(VAdd(x, part(g)), part(outer))
Xs == IF Skewed /\ Len(Many) > 1 /\ keep > 0
      THEN << Many[1], Many[2], Oblique(Many[2], VSub(Many[2], Many[1])) >> ELSE Many

\* twice the symmetric part, preconditioned
Positive ==      \* distinctly
  LET B == MMul(M, A)
      e == MSymEig(MAdd(B, MT(B)))[1]
  IN \A k \in DOMAIN e : FLt(FQ(1, 20), e[k])
Slack == FS("1e-9") (.) Norm(Left(x0))
NeverWorse == \A k \in 2..Len(Xs) : FLe(Norm(Left(Xs[k])), Norm(Left(Xs[k - 1])) (+) Slack)
Minimal ==     \* nothing left along the image of the direction of steepest descent
  Len(Xs) > 1 =>
    LET g == Left(Xs[1])  w == MVec(M, MVec(A, g))
    IN FLe(FAbs(VDot(Left(Xs[2]), w)), Slack (.) Norm(w))
Complete == inner = Size => Len(Xs) = 2 /\ FLe(Norm(Left(Xs[2])), Slack)
Progress ==
  Positive => \A k \in 2..Len(Xs) :
    FLt(Norm(Left(Xs[k])), FS("0.999999") (.) Norm(Left(Xs[k - 1]))) \/ FLe(Norm(Left(Xs[k - 1])), Slack)
Holds == ready => NeverWorse /\ Minimal /\ Complete /\ Progress
=============================================================================
