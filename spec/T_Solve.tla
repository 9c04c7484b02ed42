------------------------------ MODULE T_Solve ------------------------------
(* Trace specification: linear and nonlinear solvers, integrators and polynomials *)
EXTENDS Krylov, Basis, TraceBase

SolveLinear(e) ==
  LET near == FS("1e-9") (.) e.tol (.) FMax(F1, Norm(e.b))
      r0 == Norm(Residual(e.A, e.b, e.x0))
      goal == e.tol (.) FMax(F1, Norm(e.b))
      r == Norm(Residual(e.A, e.b, e.out))
  IN IF FLe(r0, goal (-) near) THEN Req("a solution is left alone", e.out = e.x0)
     ELSE IF e.follow
     THEN LET xs == Cycles(e.A, e.M, e.b, << e.x0 >>, e.outer, e.tol, e.inner, e.keep, e.cycles)
              x == xs[Len(xs)]
              \* after a cycle without progress, the direction to keep is rounding errors, or there is none
              vague == \E k \in 2..Len(xs) :
                         FLe(Norm(VSub(xs[k], xs[k - 1])), FS("1e-11") (.) (F1 (+) Norm(xs[k])))
              left(y) == Norm(MVec(e.M, Residual(e.A, e.b, y)))
          IN IF vague
             THEN Req("no worse than at the start", VFinite(e.out)
                                                    /\ FLe(left(e.out), left(e.x0) (.) FS("1.000001")))
             ELSE Req("minimises the residual over its directions",
                      VClose(e.out, x, F0, FS("1e-8") (.) (F1 (+) VMaxAbs(x) (+) VMaxAbs(e.x0))))
     ELSE Req("residual within the tolerance", FLe(r, goal (.) FS("1.000001")))

\* the systems of equations of the root finder
Poly3(e, x) ==
  Build(Len(x), LAMBDA k : VDot(e.J[k], x) (+) VDot(e.S[k], VHad(x, x)) (+) (e.C[k] (.) x[k] (.) x[k] (.) x[k]) (-) e.d[k])
Saturating(e, x) ==
  LET y == Build(Len(x), LAMBDA k : x[k] (/) FSqrt(F1 (+) Sq(x[k])))
  IN VSub(MVec(e.J, y), e.d)
Value(e, x) == IF e.kind = "poly" THEN Poly3(e, x) ELSE Saturating(e, x)

Root(e) ==
  LET f == Value(e, e.out)
  IN IF VMaxAbs(Value(e, e.x0)) = F0 THEN Req("a root is returned", e.out = e.x0)
     ELSE Req("is a root to the tolerance", FLe(VMaxAbs(f), e.tol))
          \cup Req("is the root nearby", ~e.near \/ VClose(e.out, e.root, F0, FS("20") (.) e.tol (+) FS("1e-9")))

\* one-variable rates
Rate(e, y) ==
  IF e.kind = "root" THEN FNeg(e.k (.) FSqrt(y (-) e.c))
  ELSE IF FLt(FAbs(y), FS("1e9")) THEN PEval(e.p, y) ELSE F0 (/) F0
RkStep(e, y, h) ==
  LET a == h (.) Rate(e, y)
      b == h (.) Rate(e, y (+) (a (/) F2))
      c == h (.) Rate(e, y (+) (b (/) F2))
      d == h (.) Rate(e, y (+) c)
  IN y (+) ((a (+) (F2 (.) b) (+) (F2 (.) c) (+) d) (/) FI(6))
RECURSIVE Steps(_, _, _, _)
Steps(e, y, h, n) == IF n = 0 THEN y ELSE Steps(e, RkStep(e, y, h), h, n - 1)
Rk(e, n) == Steps(e, e.y, e.t (/) FI(n), n)

Integrate(e) ==
  LET can == { m \in {1, 2, 4, 8, 16} : e.n * m <= 64 }
      fine == { m \in can : ~FIsNaN(Rk(e, e.n * m)) }
      m == CHOOSE k \in fine : \A j \in fine : k <= j
      own == Rk(e, e.n * m)
      ref == Rk(e, 16 * e.n * m)
  IN IF fine = {} THEN {}
     ELSE Req("integrates to its order",
              IF ~FIsFinite(ref) THEN ~FIsNaN(e.out)
              ELSE FClose(e.out, ref, F0, (FI(5) (.) FAbs(own (-) ref)) (+) (FS("1e-12") (.) FMax(F1, FAbs(ref)))))

\* the weak form of the rate equation on one step
WeakStep(e, x) ==
  LET f == Build(N, LAMBDA k : Weights[k] (.) e.t (.) PEval(e.p, x[k]))
      r == VSub(VSub(MVec(DgMat, x), VScale(e.y, Left)), f)
      J == Build(N, LAMBDA i : Build(N, LAMBDA j :
             IF i # j THEN DgMat[i][j] ELSE DgMat[i][i] (-) (Weights[i] (.) e.t (.) PEval(PDiff(e.p), x[i]))))
      d == MSolve(J, Build(N, LAMBDA k : << r[k] >>))
  IN Build(N, LAMBDA k : x[k] (-) d[k][1])
RECURSIVE Weak(_, _, _)
Weak(e, x, n) == IF n = 0 THEN x ELSE Weak(e, WeakStep(e, x), n - 1)
Stiff(e) ==
  LET x == Weak(e, Build(N, LAMBDA k : e.y), 14)
  IN Req("solves the weak form", FClose(e.out, VDot(x, Right), F0, FS("1e-4") (.) FMax(F1, FAbs(e.y))))

Poly(e) ==
  LET p == e.p
      same(a, b) == FClose(a, b, FS("1e-12"), FS("1e-12") (.) VSumOf(LAMBDA k : <<FAbs(e.p[k])>>, 1, Len(p))[1])
  IN Req("value", same(e.value, PEval(p, e.x)))
     \cup Req("integral", Len(e.int) = Len(p) + 1 /\ VClose(e.int, PInt(p), FS("1e-14"), F0))
     \cup Req("derivative", LET d == NthDiff(p, e.n) IN Len(e.diff) = Len(d) /\ VClose(e.diff, d, FS("1e-14"), F0))

EventFaults(e) ==
  CASE e.ev = "linear" -> SolveLinear(e)
    [] e.ev = "root" -> Root(e)
    [] e.ev = "rk" -> Integrate(e)
    [] e.ev = "stiff" -> Stiff(e)
    [] e.ev = "poly" -> Poly(e)
=============================================================================
