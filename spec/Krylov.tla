------------------------------- MODULE Krylov -------------------------------
(***************************************************************************)
(* Linear systems by restarted minimal residuals with recycled directions, *)
(* and roots of systems of equations.  Matrices are sequences of rows.     *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences

Norm(v) == FSqrt(VDot(v, v))
Residual(A, b, x) == VSub(b, MVec(A, x))
\* the tolerance is relative to b, but not below the tolerance itself
Enough(A, b, x, tol) == FLe(Norm(Residual(A, b, x)), tol (.) FMax(F1, Norm(b)))

\* v without its components along the orthonormal vectors qs (twice, against rounding)
RECURSIVE Without1(_, _, _)
Without1(v, qs, k) == IF k > Len(qs) THEN v ELSE Without1(VSub(v, VScale(VDot(qs[k], v), qs[k])), qs, k + 1)
Without(v, qs) == Without1(Without1(v, qs, 1), qs, 1)

\* A cycle builds directions z: the recycled ones, then the Krylov space of the preconditioned residual g.
\* c.vs span g and the images of the directions, c.qs the images only, c.zs are the directions and
\* c.left is what remains of g.
RECURSIVE Grow(_, _, _, _, _, _)
Grow(A, M, outer, tol, most, c) ==
  LET j == Len(c.zs) + 1
      z == IF j <= Len(outer) THEN outer[j] ELSE IF j = Len(outer) + 1 THEN c.vs[1] ELSE c.vs[Len(c.vs)]
      w == MVec(M, MVec(A, z))
      u == Without(w, c.vs)
      q == Without(w, c.qs)
      none == FLe(Norm(q), FS("1e-12") (.) Norm(w))          \* z brings nothing new
      qs == IF none THEN c.qs ELSE Append(c.qs, VScale(F1 (/) Norm(q), q))
      new == FLt(FS("1e-12") (.) Norm(w), Norm(u))
      d == [vs |-> IF new THEN Append(c.vs, VScale(F1 (/) Norm(u), u)) ELSE c.vs,
            qs |-> qs, zs |-> Append(c.zs, z), left |-> Without(c.g, qs), g |-> c.g]
  IN IF FLe(Norm(d.left), tol (.) Norm(c.g)) \/ j >= most \/ (~new /\ j > Len(outer)) THEN d
     ELSE Grow(A, M, outer, tol, most, d)

\* the state after a cycle: the x for which the preconditioned residual is what is left, and whether it
\* used a direction of its own
Cycle(A, M, b, x, outer, tol, inner) ==
  LET g == MVec(M, Residual(A, b, x))
      n == Norm(g)
      c == Grow(A, M, outer, tol, inner + Len(outer),
                [vs |-> << VScale(F1 (/) n, g) >>, qs |-> << >>, zs |-> << >>, left |-> g, g |-> g])
      col(v) == Build(Len(v), LAMBDA k : << v[k] >>)
      step == MSolve(MMul(M, A), col(VSub(g, c.left)))
  IN [x |-> VAdd(x, Build(Len(x), LAMBDA k : step[k][1])), new |-> Len(c.zs) > Len(outer)]

Last(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
\* the points after 0, 1, 2, .. cycles
RECURSIVE Cycles(_, _, _, _, _, _, _, _, _)
Cycles(A, M, b, xs, outer, tol, inner, keep, more) ==
  LET x == xs[Len(xs)]
  IN IF more = 0 \/ Enough(A, b, x, tol) THEN xs
     ELSE LET c == Cycle(A, M, b, x, outer, tol, inner)
              d == VSub(c.x, x)
          IN Cycles(A, M, b, Append(xs, c.x),
                    Last(IF c.new /\ FLt(F0, Norm(d)) THEN Append(outer, VScale(F1 (/) Norm(d), d)) ELSE outer, keep), tol, inner,
                    keep, more - 1)
=============================================================================
