------------------------------- MODULE Scheme ------------------------------
(* The numerical schemes: WENO reconstruction, the space-time predictor,   *)
(* the half step of the split scheme, and the finite-volume update.        *)
EXTENDS GPR, Basis
CONSTANTS NOCORNERS, PRIM

LAMS == F1
LAMC == FS("1e5")
EPS == FS("1e-14")

----------------------------------------------------------------------------
(* Reconstruction of one cell: data are the 2N-1 cells around it (rows of  *)
(* values), use = which of the stencils L, R, CL, CR take part.            *)
StencilData(data, s) == SubSeq(data, s + N, s + 2 * N - 1)
MomOf(k) == CASE k = "L" -> MomL [] k = "R" -> MomR [] k = "CL" -> MomCL [] k = "CR" -> MomCR
First(k) == CASE k = "L" -> StencilL [] k = "R" -> StencilR
              [] k = "CL" -> StencilCL [] k = "CR" -> StencilCR
Kinds == << "L", "R" >> \o (IF N > 2 THEN << "CL" >> ELSE << >>)
         \o (IF N > 2 /\ N % 2 = 0 THEN << "CR" >> ELSE << >>)
\* the stencil polynomial: values at the nodes (rows) of every variable (columns)
StencilPoly(data, k) == MSolve(MomOf(k), StencilData(data, First(k)))
\* weights of one stencil, one per variable
StencilWeight(w, k) ==
  LET T == MT(w) IN
  Build(Len(T), LAMBDA v :
    LET o == VDot(T[v], MVec(Oscillation, T[v])) (+) EPS
    IN (IF k \in {"L", "R"} THEN LAMS ELSE LAMC) (/) Sq(Sq(Sq(o))))

Reconstruct(data, use) ==
  LET ks == SelectSeq(Kinds, LAMBDA k : k \in use)
      n == Len(ks)
      w == Build(n, LAMBDA k : StencilPoly(data, ks[k]))
      o == Build(n, LAMBDA k : StencilWeight(w[k], ks[k]))
      tot == VSumOf(LAMBDA k : o[k], 1, n)
      V == Len(data[1])
      part(k) == Build(V, LAMBDA v : o[k][v] (/) tot[v])
      share == Build(n, LAMBDA k : part(k))
  IN Build(N, LAMBDA i : VSumOf(LAMBDA k : VHad(share[k], w[k][i]), 1, n))

\* how far apart the stencils' polynomials are, per variable
Spread(data, use) ==
  LET ks == SelectSeq(Kinds, LAMBDA k : k \in use)
      w == Build(Len(ks), LAMBDA k : StencilPoly(data, ks[k]))
  IN Build(Len(data[1]), LAMBDA v :
       VMaxAbs(Build(Len(ks) * N, LAMBDA x :
         LET k == ((x - 1) \div N) + 1  i == ((x - 1) % N) + 1
         IN w[k][i][v] (-) w[1][i][v])))

\* cell number c (from 0) of nx, where the stencils that reach outwards within gap cells of the
\* ends of the row are left out; on rows too short for any stencil all are used
Used(c, nx, gap) ==
  LET lo(k) == k = "R" \/ c + First(k) + N - 1 >= gap
      hi(k) == k = "L" \/ c + First(k) <= nx - gap - 1
      ks == { Kinds[k] : k \in DOMAIN Kinds }
      ok == { k \in ks : lo(k) /\ hi(k) }
  IN IF ok = {} THEN ks ELSE ok

----------------------------------------------------------------------------
(* Grids.  Positions are numbered from 0.  A grid extended by N-1 cells beyond the nx*ny cells
   that are reconstructed is a sequence of cells, last index fastest.                          *)
At(g, w, i, j) == g[i * w + j + 1]
Line1(cells, c) == SubSeq(cells, c + 1, c + 2 * N - 1)

\* 1D: [rec |-> the reconstruction, tol |-> its conditioning, per variable] of every cell
Umax(data) == LET T == MT(data) IN Build(Len(T), LAMBDA v : VMaxAbs(T[v]))
\* the accuracy to which rounding determines a reconstruction
RecTol(data, use) ==
  LET u == Umax(data)
      sp == Spread(data, use)
  IN Build(Len(u), LAMBDA v :
       (FS(IF N < 4 THEN "1e-11" ELSE "1e-10") (.) u[v])
       (+) (IF FEq(sp[v], F0) THEN F0
            ELSE FMin(sp[v], (FS(IF N = 2 THEN "1e-12" ELSE IF N = 3 THEN "1e-11" ELSE "1e-9")
                              (.) Sq(u[v])) (/) sp[v])))
Rec1(cells, nx) ==
  Build(nx, LAMBDA c : LET d == Line1(cells, c - 1) use == Used(c - 1, nx, 0)
                       IN [rec |-> Reconstruct(d, use), tol |-> RecTol(d, use)])
\* 2D: first along x for all lines, then along y
GapX(j, ny) == IF NOCORNERS /\ (j < N \/ j >= ny + N - 2) THEN N ELSE 0
GapY(i, nx) == IF NOCORNERS /\ (i = 0 \/ i = nx - 1) THEN 1 ELSE 0
Rec2(cells, nx, ny) ==
  LET w == ny + 2 * (N - 1)
      X == Build(nx, LAMBDA i : Build(w, LAMBDA j :
             LET d == Build(2 * N - 1, LAMBDA k : At(cells, w, i - 1 + k - 1, j - 1))
                 use == Used(i - 1, nx, GapX(j - 1, ny))
             IN [rec |-> Reconstruct(d, use), tol |-> RecTol(d, use)]))
      Y(i, a, j) ==
        LET d == Build(2 * N - 1, LAMBDA k : X[i][j + k - 1].rec[a])
            t == Build(2 * N - 1, LAMBDA k : X[i][j + k - 1].tol)
            use == Used(j - 1, ny, GapY(i - 1, nx))
        IN [rec |-> Reconstruct(d, use),
            tol |-> VAdd(RecTol(d, use), VScale(FI(20), Umax(t)))]
  IN Build(nx * ny, LAMBDA c :
       LET i == ((c - 1) \div ny) + 1  j == ((c - 1) % ny) + 1
           q == Build(N, LAMBDA a : Y(i, a, j))
       IN [rec |-> Flat(Build(N, LAMBDA a : q[a].rec)),
           tol |-> Umax(Build(N, LAMBDA a : q[a].tol))])

\* reconstruction in primitive variables
ToPrim(m, Q) ==
  << Q[1], PressureOf(m, Q) >> \o Vel(Q) \o SubSeq(Q, 6, 14)
  \o (IF THERMAL THEN Imp(Q) ELSE << >>) \o (IF MULTI THEN << Lam(Q) >> ELSE << >>) \o LevelSets(Q)
FromPrim(m, P) ==
  LET r == P[1]
      E == TotalEnergy(m, r, P[2], SubSeq(P, 3, 5), Rows(SubSeq(P, 6, 14), 3),
                       IF THERMAL THEN SubSeq(P, 15, 17) ELSE << >>,
                       IF MULTI THEN P[LamIx] ELSE F1)
  IN << r, r (.) E >> \o VScale(r, SubSeq(P, 3, 5)) \o SubSeq(P, 6, 14)
     \o (IF THERMAL THEN VScale(r, SubSeq(P, 15, 17)) ELSE << >>)
     \o (IF MULTI THEN << r (.) P[LamIx] >> ELSE << >>) \o LevelSets(P)

----------------------------------------------------------------------------
(* Polynomials of a cell, given by the rows of their values at the nodes (1D: N rows, 2D: N*N,
   the node along y fastest)                                                                  *)
\* the derivative along direction d at every node
Deriv1(w) == MMul(DerVals, w)
Deriv2(w, d) ==
  Build(N * N, LAMBDA s :
    LET a == ((s - 1) \div N) + 1  b == ((s - 1) % N) + 1
    IN VSumOf(LAMBDA k : IF d = 1 THEN VScale(DerVals[a][k], w[(k - 1) * N + b])
                         ELSE VScale(DerVals[b][k], w[(a - 1) * N + k]), 1, N))
Deriv(nd, w, d) == IF nd = 1 THEN Deriv1(w) ELSE Deriv2(w, d)
\* values at the nodes of the face of direction d at end e (0 or 1)
EndOf(e) == IF e = 0 THEN Left ELSE Right
Face(nd, w, d, e) ==
  IF nd = 1 THEN << VSumOf(LAMBDA k : VScale(EndOf(e)[k], w[k]), 1, N) >>
  ELSE Build(N, LAMBDA s :
         VSumOf(LAMBDA k : VScale(EndOf(e)[k], w[IF d = 1 THEN (k - 1) * N + s
                                                ELSE (s - 1) * N + k]), 1, N))
NodeWeight(nd, s) == IF nd = 1 THEN Weights[s]
                     ELSE Weights[((s - 1) \div N) + 1] (.) Weights[((s - 1) % N) + 1]
NNodes(nd) == IF nd = 1 THEN N ELSE N * N
FaceNodes(nd) == IF nd = 1 THEN 1 ELSE N
FaceWeight(nd, s) == IF nd = 1 THEN F1 ELSE Weights[s]

\* B(w) . grad w at every node
Advection(m, nd, w, dX) ==
  LET D == Build(nd, LAMBDA d : Deriv(nd, w, d)) IN
  Build(NNodes(nd), LAMBDA s :
    VSumOf(LAMBDA d : VScale(F1 (/) dX[d], NonConservative(m, w[s], D[d][s], d)), 1, nd))

(* The half step of the split scheme *)
HalfStep(m, nd, w, dt, dX) ==
  LET D == Build(nd, LAMBDA d :
             Deriv(nd, Build(NNodes(nd), LAMBDA s : Flux(m, w[s], d)), d))
      adv == Advection(m, nd, w, dX)
  IN Build(NNodes(nd), LAMBDA s :
       VSub(w[s], VScale(Half (.) dt,
         VAdd(adv[s], VSumOf(LAMBDA d : VScale(F1 (/) dX[d], D[d][s]), 1, nd)))))

(* Cell average of S - B . grad w *)
Interior(m, nd, w, dX, sources) ==
  LET adv == Advection(m, nd, w, dX) IN
  VSumOf(LAMBDA s : VScale(NodeWeight(nd, s),
           IF sources THEN VSub(Source(m, w[s]), adv[s]) ELSE VNeg(adv[s])), 1, NNodes(nd))

(* The jump term of a face *)
JumpTerm(m, L, R, d) ==
  LET dq == VSub(R, L) IN
  VSumOf(LAMBDA k : VScale(Weights[k],
    NonConservative(m, VAdd(L, VScale(Nodes[k], dq)), dq, d)), 1, N)

----------------------------------------------------------------------------
(* The space-time predictor: values q[t][s] at time node t and space node s that satisfy the weak
   form with initial data w                                                                      *)
Predictor0(nd, w) == Build(N, LAMBDA t : w)
\* < psi_i, d/dx > of F, per unit of the weights of the other directions
WeakDiv(nd, F, d) ==
  Build(NNodes(nd), LAMBDA s :
    LET a == IF nd = 1 THEN s ELSE ((s - 1) \div N) + 1
        b == IF nd = 1 THEN 1 ELSE ((s - 1) % N) + 1
    IN VSumOf(LAMBDA k :
         IF nd = 1 THEN VScale(DgDer[a][k], F[k])
         ELSE IF d = 1 THEN VScale(DgDer[a][k] (.) Weights[b], F[(k - 1) * N + b])
         ELSE VScale(DgDer[b][k] (.) Weights[a], F[(a - 1) * N + k]), 1, N))
\* terms of the weak form that are not stiff
Hyperbolic(m, nd, q, dt, dX) ==
  Build(N, LAMBDA t :
    LET w == q[t]
        adv == Advection(m, nd, w, dX)
        div == Build(nd, LAMBDA d :
                 WeakDiv(nd, Build(NNodes(nd), LAMBDA s : Flux(m, w[s], d)), d))
    IN Build(NNodes(nd), LAMBDA s :
         VScale(FNeg(dt (.) Weights[t]),
           VAdd(VScale(NodeWeight(nd, s), adv[s]),
                VSumOf(LAMBDA d : VScale(F1 (/) dX[d], div[d][s]), 1, nd)))))
\* solves DgMat (x) weights q = r for the time nodes of one space node
TimeInv == MInv(DgMat)
TimeSolve(nd, s, r) == MScale(F1 (/) NodeWeight(nd, s), MMul(TimeInv, r))

\* one sweep of the iteration; the sources are implicit if stiff
PredictorSweep(m, nd, w, q, dt, dX, stiff, qs) ==
  LET H == Hyperbolic(m, nd, q, dt, dX)
      base(s) == Build(N, LAMBDA t :
                   VAdd(VScale(Left[t] (.) NodeWeight(nd, s), w[s]), H[t][s]))
      src(s, x) == Build(N, LAMBDA t :
                     VScale(dt (.) (Weights[t] (.) NodeWeight(nd, s)), Source(m, x[t])))
      old(s) == Build(N, LAMBDA t : q[t][s])
      explicit(s) == TimeSolve(nd, s, MAdd(base(s), src(s, old(s))))
      \* Newton for the time nodes of one space node
      implicit(s) ==
        LET bs == base(s)
            x0 == old(s)
            g(x) == MSub(x, TimeSolve(nd, s, MAdd(bs, src(s, x))))
            J(x) == MT(Build(N * NV, LAMBDA c :
                      LET t == ((c - 1) \div NV) + 1  v == ((c - 1) % NV) + 1
                      IN VDiff(LAMBDA y : Flat(g([x EXCEPT ![t][v] = y])), x[t][v],
                               FS("1e-5") (.) qs[v])))
            RECURSIVE newton(_, _)
            newton(x, k) ==
              IF k = 0 THEN x
              ELSE LET r == Flat(g(x))
                       dx == Rows(MT(MSolve(J(x), MT(<< r >>)))[1], NV)
                       y == MSub(x, dx)
                       small == \A t \in 1..N : VCloseS(y[t], x[t], qs, FS("1e-9"))
                   IN IF small THEN y ELSE newton(y, k - 1)
        IN newton(x0, 12)
      new == Build(NNodes(nd), LAMBDA s : IF stiff THEN implicit(s) ELSE explicit(s))
  IN Build(N, LAMBDA t : Build(NNodes(nd), LAMBDA s : new[s][t]))

\* [q |-> space-time values, ok |-> whether the iteration converged]; qs = scale of each variable
RECURSIVE PredictorIter(_, _, _, _, _, _, _, _, _)
PredictorIter(m, nd, w, q, dt, dX, stiff, qs, left) ==
  LET n == PredictorSweep(m, nd, w, q, dt, dX, stiff, qs)
      near == \A t \in 1..N : \A s \in 1..NNodes(nd) : VCloseS(n[t][s], q[t][s], qs, FS("1e-10"))
      bad == \E t \in 1..N : \E s \in 1..NNodes(nd) : ~VFinite(n[t][s])
  IN IF near THEN [q |-> n, ok |-> TRUE]
     ELSE IF bad \/ left = 0 THEN [q |-> n, ok |-> FALSE]
     ELSE PredictorIter(m, nd, w, n, dt, dX, stiff, qs, left - 1)
Predict(m, nd, w, dt, dX, qs) ==
  LET explicit == PredictorIter(m, nd, w, Predictor0(nd, w), dt, dX, FALSE, qs, 60)
  IN IF explicit.ok THEN explicit
     ELSE PredictorIter(m, nd, w, Predictor0(nd, w), dt, dX, TRUE, qs, 60)

----------------------------------------------------------------------------
(* The finite-volume update of cell (i, j), counted from 0, of a grid of nX cells.  Rec(t, i, j)
   is the polynomial of a cell at time node t, cells counted with one layer of ghost cells;
   FaceTerms(t, d, i, j, s) = [f |-> flux, b |-> jump term] at node s of the upper face of
   direction d of the cell (i, j) so counted.                                                  *)
Update(m, nX, dt, dX, sources, nt, Rec(_, _, _), FaceTerms(_, _, _, _, _), i, j) ==
  LET nd == Len(nX)
      tw(t) == IF nt = 1 THEN dt ELSE dt (.) Weights[t]
      low(d) == IF d = 1 THEN << i, j + 1 >> ELSE << i + 1, j >>
      side(t, d) ==
        VScale(F1 (/) (F2 (.) dX[d]), VSumOf(LAMBDA s :
          LET up == FaceTerms(t, d, i + 1, j + 1, s)
              dn == FaceTerms(t, d, low(d)[1], low(d)[2], s)
          IN VScale(FaceWeight(nd, s), VAdd(VAdd(up.b, up.f), VSub(dn.b, dn.f))), 1, FaceNodes(nd)))
  IN VSumOf(LAMBDA t : VScale(tw(t),
       VSub(Interior(m, nd, Rec(t, i + 1, j + 1), dX, sources),
            VSumOf(LAMBDA d : side(t, d), 1, nd))), 1, nt)
=============================================================================
