------------------------------- MODULE Basis -------------------------------
(* The reference cell: Gauss-Legendre nodes and weights of N points on     *)
(* [0,1], the Lagrange polynomials through them, and what the schemes use  *)
(* of them.                                                                *)
EXTENDS F64
CONSTANT N

Nodes ==
  CASE N = 1 -> << Half >>
    [] N = 2 -> LET h == FSqrt(F3) (/) FI(6) IN << Half (-) h, Half (+) h >>
    [] N = 3 -> LET h == FSqrt(FQ(3, 5)) (/) F2 IN << Half (-) h, Half, Half (+) h >>
    [] N = 4 -> LET p == FSqrt(FQ(3, 7) (-) (FQ(2, 7) (.) FSqrt(FQ(6, 5)))) (/) F2
                    q == FSqrt(FQ(3, 7) (+) (FQ(2, 7) (.) FSqrt(FQ(6, 5)))) (/) F2
                IN << Half (-) q, Half (-) p, Half (+) p, Half (+) q >>
Weights ==
  CASE N = 1 -> << F1 >>
    [] N = 2 -> << Half, Half >>
    [] N = 3 -> << FQ(5, 18), FQ(4, 9), FQ(5, 18) >>
    [] N = 4 -> LET g == FSqrt(FI(30)) (/) FI(72)
                IN << FQ(1, 4) (-) g, FQ(1, 4) (+) g, FQ(1, 4) (+) g, FQ(1, 4) (-) g >>

\* a polynomial is the sequence of its coefficients, constant first
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(p, x, k) == IF k = Len(p) THEN p[k] ELSE p[k] (+) (x (.) PEvalFrom(p, x, k + 1))
PEval(p, x) == PEvalFrom(p, x, 1)
PMul(p, q) ==
  Build(Len(p) + Len(q) - 1, LAMBDA k :
    FSumOf(LAMBDA i : IF i <= Len(p) /\ k - i + 1 >= 1 /\ k - i + 1 <= Len(q)
                      THEN p[i] (.) q[k - i + 1] ELSE F0, 1, k))
PDiff(p) == IF Len(p) = 1 THEN << F0 >> ELSE Build(Len(p) - 1, LAMBDA k : FI(k) (.) p[k + 1])
PInt(p) == Build(Len(p) + 1, LAMBDA k : IF k = 1 THEN F0 ELSE p[k - 1] (/) FI(k - 1))
Integral(p, a, b) == LET P == PInt(p) IN PEval(P, b) (-) PEval(P, a)

RECURSIVE LagrangeUpTo(_, _)
LagrangeUpTo(i, k) ==
  IF k = 0 THEN << F1 >>
  ELSE IF k = i THEN LagrangeUpTo(i, k - 1)
  ELSE LET d == Nodes[i] (-) Nodes[k]
       IN PMul(LagrangeUpTo(i, k - 1), << FNeg(Nodes[k]) (/) d, F1 (/) d >>)
Psi == Build(N, LAMBDA i : LagrangeUpTo(i, N))
DPsi == Build(N, LAMBDA i : PDiff(Psi[i]))
RECURSIVE NthDiff(_, _)
NthDiff(p, n) == IF n = 0 THEN p ELSE NthDiff(PDiff(p), n - 1)

Left == Build(N, LAMBDA i : PEval(Psi[i], F0))     \* values at 0 and 1
Right == Build(N, LAMBDA i : PEval(Psi[i], F1))
\* DerVals[i][j]: the derivative of basis polynomial j at node i
DerVals == Build(N, LAMBDA i : Build(N, LAMBDA j : PEval(DPsi[j], Nodes[i])))

----------------------------------------------------------------------------
(* WENO stencils: averages of the basis over the cells s, ..., s+N-1 counted from the cell
   itself, and the oscillation indicator *)
Moments(s) == Build(N, LAMBDA i : Build(N, LAMBDA j :
                Integral(Psi[j], FI(s + i - 1), FI(s + i))))
Oscillation ==
  Build(N, LAMBDA i : Build(N, LAMBDA j :
    IF N = 1 THEN F0 ELSE
    FSumOf(LAMBDA a : Integral(PMul(NthDiff(Psi[i], a), NthDiff(Psi[j], a)), F0, F1), 1, N - 1)))
FloorHalf == (N - 1) \div 2
CeilHalf == N \div 2
\* first cell of each stencil
StencilL == 1 - N
StencilR == 0
StencilCL == -CeilHalf
StencilCR == -FloorHalf
MomL == Moments(StencilL)
MomR == Moments(StencilR)
MomCL == Moments(StencilCL)
MomCR == Moments(StencilCR)

----------------------------------------------------------------------------
(* Space-time weak form *)
\* <psi_i, psi_j'>
DgDer == Build(N, LAMBDA i : Build(N, LAMBDA j : Integral(PMul(Psi[i], DPsi[j]), F0, F1)))
\* psi_i(1) psi_j(1) - <psi_i', psi_j>
DgMat == Build(N, LAMBDA i : Build(N, LAMBDA j : (Right[i] (.) Right[j]) (-) DgDer[j][i]))
=============================================================================
