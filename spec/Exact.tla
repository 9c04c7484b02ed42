-------------------------------- MODULE Exact --------------------------------
(***************************************************************************)
(* Exact solutions of the governing equations: patterns carried by a        *)
(* uniform flow, small waves, Riemann problems of stiffened gases.          *)
(***************************************************************************)
EXTENDS Waves

State(m, r, p, v, A, J, phi) ==
  << r, r (.) TotalEnergy(m, r, p, v, A, J, F1) >> \o VScale(r, v) \o Flat(A)
  \o (IF THERMAL THEN VScale(r, J) ELSE << >>) \o (IF MULTI THEN << r >> ELSE << >>) \o phi

TwoPi == FS("6.283185307179586")
\* rotation by the angle t about axis a
Rotation(a, t) ==
  LET c == FCos(t)  s == FSin(t)
      i == (a % 3) + 1  j == (i % 3) + 1
  IN Build(3, LAMBDA p : Build(3, LAMBDA q :
       IF p = a /\ q = a THEN F1 ELSE IF p = a \/ q = a THEN F0
       ELSE IF p = q THEN c ELSE IF p = i THEN FNeg(s) ELSE s))

----------------------------------------------------------------------------
(* Patterns carried by a flow of uniform velocity and pressure: density     *)
(* waves of isotropic matter, and orientations of uniformly strained matter *)
(* (stress and energy do not depend on the orientation).  f is a record     *)
(*   r0, p, v, A0, dens: density, pressure, velocity, distortion, size of   *)
(*   the density wave; angle: size of the rotations about two axes;         *)
(*   k: periods per unit length in each direction.                          *)
Carried(m, f, x, t, phi) ==
  LET y == TwoPi (.) FSumOf(LAMBDA d : FI(f.k[d]) (.) (x[d] (-) (f.v[d] (.) t)), 1, Len(x))
      r == f.r0 (.) (F1 (+) (f.dens (.) FSin(y)))
      A == MMul(MMul(Rotation(3, f.angle (.) FSin(y)), Rotation(1, f.angle (.) FCos(y))), f.A0)
  IN State(m, r, f.p, f.v, MScale(FCbrt(r (/) f.r0), A), VZero(3), phi)

\* the average over a cell, by two Gauss points per direction
GaussAt == << FNeg(FSqrt(Third)), FSqrt(Third) >>
Average(m, f, x, dX, t, phi) ==
  LET at(d, g) == x[d] (+) (Half (.) (dX[d] (.) GaussAt[g]))
      n == Len(x)
  IN VScale(FQ(1, 2 ^ n), VSumOf(LAMBDA k :
       Carried(m, f, Build(n, LAMBDA d : at(d, (((k - 1) \div (2 ^ (d - 1))) % 2) + 1)), t, phi), 1, 2 ^ n))

----------------------------------------------------------------------------
(* Small waves: Q0 + Re(w exp(i kappa x)) with dw/dt = (S' - i kappa M) w,  *)
(* M = F' + B.  In units sc, for w = a - i b: Q0 + a cos + b sin.           *)
RECURSIVE ExpSeries(_, _, _)
ExpSeries(X, k, n) ==     \* I + X/k (I + X/(k+1) (...))
  IF k > n THEN MId(Len(X))
  ELSE MAdd(MId(Len(X)), MScale(F1 (/) FI(k), MMul(X, ExpSeries(X, k + 1, n))))
RECURSIVE Power2(_, _)
Power2(X, n) == IF n = 0 THEN X ELSE LET Y == Power2(X, n - 1) IN MMul(Y, Y)
MExp(X) ==
  LET RECURSIVE halvings(_)
      halvings(z) == IF FLe(z, FQ(1, 8)) THEN 0 ELSE 1 + halvings(Half (.) z)
      n == halvings(FI(Len(X)) (.) MMaxAbs(X))
  IN Power2(ExpSeries(MScale(FPow(Half, FI(n)), X), 1, 12), n)

\* a' = S' a - kappa M b,  b' = S' b + kappa M a
Amplitudes(m, Q0, d, kappa, sc, ab, t) ==
  LET M == MScale(kappa, Scaled(SystemMatrix(m, Q0, d, sc), sc))
      S == Scaled(Jacobian(LAMBDA q : Source(m, q), Q0, sc), sc)
      X == Build(2 * NV, LAMBDA i :
             IF i <= NV THEN S[i] \o VScale(FI(-1), M[i]) ELSE M[i - NV] \o S[i - NV])
      inv == Build(2 * NV, LAMBDA i : F1 (/) sc[((i - 1) % NV) + 1])
      z == MVec(MExp(MScale(t, X)), VHad(inv, ab))
  IN Build(2 * NV, LAMBDA i : sc[((i - 1) % NV) + 1] (.) z[i])

----------------------------------------------------------------------------
(* The Riemann problem of two stiffened gases without viscosity.  A side is *)
(* a record r, u, p, g, P: density, velocity, pressure, gamma, p_infinity   *)
Sound(s) == FSqrt((s.g (.) (s.p (+) s.P)) (/) s.r)
\* change of the velocity through the wave of a side that ends at pressure p
Jump(s, p) ==
  IF FLt(s.p, p)
  THEN LET a == F2 (/) ((s.g (+) F1) (.) s.r)
           b == ((s.g (-) F1) (/) (s.g (+) F1)) (.) (s.p (+) s.P)
       IN (p (-) s.p) (.) FSqrt(a (/) ((p (+) s.P) (+) b))
  ELSE ((F2 (.) Sound(s)) (/) (s.g (-) F1))
       (.) (FPow((p (+) s.P) (/) (s.p (+) s.P), (s.g (-) F1) (/) (F2 (.) s.g)) (-) F1)
RECURSIVE Bisect(_, _, _, _)
Bisect(Fn(_), lo, hi, n) ==
  LET c == Half (.) (lo (+) hi)
  IN IF n = 0 THEN c ELSE IF FLt(F0, Fn(c)) THEN Bisect(Fn, lo, c, n - 1) ELSE Bisect(Fn, c, hi, n - 1)
StarPressure(L, R) ==
  Bisect(LAMBDA p : (Jump(L, p) (+) Jump(R, p)) (+) (R.u (-) L.u),
         FNeg(FMin(L.P, R.P)) (.) FS("0.999999"), FI(50) (.) FMax(L.p (+) L.P, R.p (+) R.P), 90)
StarVelocity(L, R, p) == Half (.) ((L.u (+) R.u) (+) (Jump(R, p) (-) Jump(L, p)))
StarDensity(s, p) ==
  LET x == (p (+) s.P) (/) (s.p (+) s.P)
      g == (s.g (-) F1) (/) (s.g (+) F1)
  IN s.r (.) (IF FLt(s.p, p) THEN (x (+) g) (/) ((g (.) x) (+) F1) ELSE FPow(x, F1 (/) s.g))
\* << density, velocity, pressure >> at speed z, of the wave into the gas s on the left
Within(s, p, u, z) ==
  LET c == Sound(s)
      star == << StarDensity(s, p), u, p >>
      own == << s.r, s.u, s.p >>
  IN IF FLt(s.p, p)
     THEN LET x == (p (+) s.P) (/) (s.p (+) s.P)
              w == s.u (-) (c (.) FSqrt((((s.g (+) F1) (.) x) (+) (s.g (-) F1)) (/) (F2 (.) s.g)))
          IN IF FLt(z, w) THEN own ELSE star
     ELSE LET cs == c (.) FPow((p (+) s.P) (/) (s.p (+) s.P), (s.g (-) F1) (/) (F2 (.) s.g))
              y == (F2 (/) (s.g (+) F1)) (+) (((s.g (-) F1) (/) ((s.g (+) F1) (.) c)) (.) (s.u (-) z))
          IN IF FLt(z, s.u (-) c) THEN own
             ELSE IF FLt(u (-) cs, z) THEN star
             ELSE << s.r (.) FPow(y, F2 (/) (s.g (-) F1)),
                     (F2 (/) (s.g (+) F1)) (.) ((c (+) (((s.g (-) F1) (/) F2) (.) s.u)) (+) z),
                     ((s.p (+) s.P) (.) FPow(y, (F2 (.) s.g) (/) (s.g (-) F1))) (-) s.P >>
Mirror(s) == [s EXCEPT !.u = FNeg(s.u)]
Riemann(L, R, star, z) ==      \* star: << pressure, velocity >>
  IF FLt(z, star[2]) THEN Within(L, star[1], star[2], z)
  ELSE LET w == Within(Mirror(R), star[1], FNeg(star[2]), FNeg(z)) IN << w[1], FNeg(w[2]), w[3] >>
=============================================================================
