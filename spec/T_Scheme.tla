------------------------------ MODULE T_Scheme -----------------------------
(* Trace specification: reconstruction, predictor, finite-volume update *)
EXTENDS Scheme, TraceBase, FiniteSets

MClose(X, Y, t) ==
  /\ Len(X) = Len(Y)
  /\ \A k \in DOMAIN X : VClose(X[k], Y[k], F0, t)

\* the matrices and polynomials that the implementation computes with
BasisEv(e) ==
  LET t == FS("1e-12") IN
     Req("nodes", VClose(e.nodes, Nodes, F0, t))
  \cup Req("weights", VClose(e.weights, Weights, F0, t))
  \cup Req("basis polynomials", MClose(e.psi, Psi, FS("1e-11")))
  \cup Req("end values", MClose(e.ends, << Left, Right >>, FS("1e-11")))
  \cup Req("derivative values", MClose(e.ders, DerVals, FS("1e-10")))
  \cup Req("stencils", MClose(e.L, MomL, FS("1e-10")) /\ MClose(e.R, MomR, FS("1e-10"))
                       /\ MClose(e.CL, MomCL, FS("1e-10")) /\ MClose(e.CR, MomCR, FS("1e-10")))
  \cup Req("oscillation indicator", MClose(e.sig, Oscillation, FS("1e-9")))

Cells(v) == Rows(v, NV)
\* the polynomials of the cells, k rows each
Polys(v, k) == Rows(Rows(v, NV), k)

WenoEv(e) ==
  LET nd == Len(e.nX)
      in == Cells(e.ub)
      nx == e.nX[1] + 2
      ny == IF nd = 2 THEN e.nX[2] + 2 ELSE 1
      k == NNodes(nd)
      out == Polys(e.wh, k)
      data == IF PRIM THEN Build(Len(in), LAMBDA c : ToPrim(e.m, in[c])) ELSE in
      want == IF nd = 1 THEN Rec1(data, nx) ELSE Rec2(data, nx, ny)
      \* position of cell c in the extended grid
      own(c) == IF nd = 1 THEN in[c + N - 1]
                ELSE At(in, ny + 2 * (N - 1), ((c - 1) \div ny) + N - 1, ((c - 1) % ny) + N - 1)
      avg(c) == VSumOf(LAMBDA s : VScale(NodeWeight(nd, s), out[c][s]), 1, k)
      conv(w) == IF PRIM THEN FromPrim(e.m, w) ELSE w
      size == Umax(in)
      okCell(c) ==
        LET tol == want[c].tol IN
        \A s \in 1..k :
          IF PRIM
          THEN LET p == IF VFinite(out[c][s]) THEN ToPrim(e.m, out[c][s]) ELSE out[c][s]
               IN \A v \in 1..NV :
                    FLe(FAbs(p[v] (-) want[c].rec[s][v]),
                        tol[v] (+) (FS("1e-9") (.) e.ps[v]))
          ELSE \A v \in 1..NV : FLe(FAbs(out[c][s][v] (-) want[c].rec[s][v]), tol[v])
      bad == { c \in 1..(nx * ny) : ~okCell(c) }
      badAvg == { c \in 1..(nx * ny) :
                    ~PRIM /\ ~VCloseS(avg(c), own(c), size, FS("1e-12")) }
  IN Req("cell average", badAvg = {}) \cup Req("WENO polynomial", bad = {})

----------------------------------------------------------------------------
Marked(e, i, j) == IF Len(e.nX) = 1 THEN e.mask[i + 1] ELSE e.mask[i * (e.nX[2] + 2) + j + 1]
CellIx(e, i, j) == IF Len(e.nX) = 1 THEN i + 1 ELSE i * e.nX[2] + j + 1
Positions(e) == { << i, j >> : i \in 0..(e.nX[1] - 1),
                              j \in IF Len(e.nX) = 1 THEN {0} ELSE 0..(e.nX[2] - 1) }
\* in 1D the second index is not used
Full(e, p) ==
  LET i == p[1] + 1  j == p[2] + 1 IN
  /\ Marked(e, i, j) /\ Marked(e, i - 1, j) /\ Marked(e, i + 1, j)
  /\ Len(e.nX) = 1 \/ (Marked(e, i, j - 1) /\ Marked(e, i, j + 1))

FvRun(e, r) ==
  LET nd == Len(e.nX)
      nt == IF e.time THEN N ELSE 1
      rec == Polys(r.rec, NNodes(nd))
      cix(i, j) == IF nd = 1 THEN i ELSE i * (e.nX[2] + 2) + j
      Rec(t, i, j) == rec[cix(i, j) * nt + t]
      \* recorded fluxes of the faces, with the states either side
      entry(t, d, i, j, s) == r.faces[d][t][i + 1][IF nd = 1 THEN 1 ELSE j + 1][s]
      step(d, i, j) == IF d = 1 THEN << i + 1, j >> ELSE << i, j + 1 >>
      FaceTerms(t, d, i, j, s) ==
        LET f == entry(t, d, i, j, s)
        IN [f |-> f.f, b |-> JumpTerm(e.m, f.l, f.r, d)]
      sidesOK(t, d, i, j, s) ==
        LET f == entry(t, d, i, j, s)
            n == step(d, i, j)
            L == Face(nd, Rec(t, i, j), d, 1)[s]
            R == Face(nd, Rec(t, n[1], n[2]), d, 0)[s]
        IN VCloseS(f.l, L, e.scale, FS("1e-12")) /\ VCloseS(f.r, R, e.scale, FS("1e-12"))
      faces(p) == { << d, q >> : d \in 1..nd, q \in {0, 1} }
      low(p, x) == IF x[2] = 1 THEN << p[1] + 1, p[2] + 1 >>
                   ELSE IF x[1] = 1 THEN << p[1], p[2] + 1 >> ELSE << p[1] + 1, p[2] >>
      u0 == Cells(r.u0)
      u1 == Cells(r.u1)
      upd(p) == Update(e.m, e.nX, e.dt, e.dX, e.sources, nt, Rec, FaceTerms, p[1], p[2])
      full == { p \in Positions(e) : Full(e, p) }
      tol == FS("1e-11")
      okCell(p) == LET k == CellIx(e, p[1], p[2])
                   IN VCloseS(u1[k], VAdd(u0[k], upd(p)), r.size, tol)
      sides == \A p \in full : \A t \in 1..nt : \A x \in faces(p) : \A s \in 1..FaceNodes(nd) :
                 sidesOK(t, x[1], low(p, x)[1], low(p, x)[2], s)
      unmarked == { p \in Positions(e) : ~Marked(e, p[1] + 1, p[2] + 1) }
  IN IF ~sides THEN {"recorder"}
     ELSE Req("update of a cell", \A p \in full : okCell(p))
          \cup Req("unmarked cell changed", \A p \in unmarked :
                 LET k == CellIx(e, p[1], p[2]) IN u1[k] = u0[k])

\* conserved totals change by the boundary fluxes only
Conserved(e, r) ==
  LET nd == Len(e.nX)
      nt == IF e.time THEN N ELSE 1
      tw(t) == IF nt = 1 THEN e.dt ELSE e.dt (.) Weights[t]
      u0 == Cells(r.u0)
      u1 == Cells(r.u1)
      n == Len(u0)
      total(u) == SubSeq(VSumOf(LAMBDA k : u[k], 1, n), 1, 5)
      entry(t, d, i, j, s) == r.faces[d][t][i + 1][IF nd = 1 THEN 1 ELSE j + 1][s].f
      line(t, d, a, b) ==
        IF nd = 1 THEN VSub(entry(t, 1, e.nX[1], 1, 1), entry(t, 1, 0, 1, 1))
        ELSE VSumOf(LAMBDA s : VScale(Weights[s],
               IF d = 1 THEN VSub(entry(t, 1, e.nX[1], a, s), entry(t, 1, 0, a, s))
               ELSE VSub(entry(t, 2, a, e.nX[2], s), entry(t, 2, a, 0, s))), 1, N)
      out == VSumOf(LAMBDA t : VScale(tw(t), VSumOf(LAMBDA d :
               VScale(F1 (/) (F2 (.) e.dX[d]),
                 VSumOf(LAMBDA a : line(t, d, a, 0), 1, IF nd = 1 THEN 1 ELSE e.nX[3 - d])),
               1, nd)), 1, nt)
      gain == IF e.sources THEN << F0, F0 >> \o VScale(FI(n) (.) e.dt, e.m.dp) ELSE VZero(5)
      want == VAdd(total(u0), VSub(gain, SubSeq(out, 1, 5)))
  IN Req("mass, momentum and energy are conserved",
         VCloseS(total(u1), want, VScale(FI(n), SubSeq(r.size, 1, 5)), FS("1e-11")))

FvFaults(e, r) ==
  FvRun(e, r) \cup (IF \A k \in DOMAIN e.mask : e.mask[k] THEN Conserved(e, r) ELSE {})
\* with Roe's and Osher's fluxes (see FluxPair) two of three runs decide
FvEv(e) ==
  LET f == [k \in DOMAIN e.runs |-> FvFaults(e, e.runs[k])]
      good == { k \in DOMAIN e.runs : f[k] = {} }
  IN IF 2 * Cardinality(good) > Len(e.runs) THEN {} ELSE UNION { f[k] : k \in DOMAIN e.runs }

UniformEv(e) ==
  LET u0 == Cells(e.u0)
      u1 == Cells(e.u1)
  IN Req("a uniform state changes", \A k \in DOMAIN u0 : VCloseS(u1[k], u0[k], e.scale, FS("1e-10")))

----------------------------------------------------------------------------
MidEv(e) ==
  LET nd == Len(e.dX)
      k == NNodes(nd)
      w0 == Polys(e.w0, k)
      w1 == Polys(e.w1, k)
      ok(c) == LET w == HalfStep(e.m, nd, w0[c], e.dt, e.dX)
               IN \A s \in 1..k : VCloseS(w1[c][s], w[s], e.size, FS("1e-11"))
  IN Req("half step", \A c \in DOMAIN w0 : e.mask[c] => ok(c))
     \cup Req("unmarked cell changed", \A c \in DOMAIN w0 : ~e.mask[c] => w1[c] = w0[c])

----------------------------------------------------------------------------
(* A step of the ADER scheme, given the reconstruction.  The Rusanov flux is computed here;
   e.speeds are wave speeds recorded at the cells, whose largest bounds the dissipation        *)
Speed(m, Q, d, sc) ==
  LET M == MAdd(Jacobian(LAMBDA q : Flux(m, q, d), Q, sc), NonConservativeMatrix(m, Q, d))
      inv == [k \in 1..NV |-> F1 (/) sc[k]]
  IN MSpecRad(Build(NV, LAMBDA r : VScale(inv[r], VHad(M[r], sc))))
Rusanov(m, L, R, d, sc) ==
  VAdd(VAdd(Flux(m, L, d), Flux(m, R, d)),
       VScale(FMax(Speed(m, L, d, sc), Speed(m, R, d, sc)), VSub(L, R)))

AderEv(e) ==
  LET nd == Len(e.nX)
      wh == Polys(e.wh, NNodes(nd))
      n == Len(wh)
      marked == { c \in 1..n : e.mask[c] }
      pred == [c \in 1..n |-> IF c \in marked
                              THEN Predict(e.m, nd, wh[c], e.dt, e.dX, e.scale)
                              ELSE [q |-> << >>, ok |-> TRUE]]
      cache == Seq_(pred)
      cix(i, j) == IF nd = 1 THEN i ELSE i * (e.nX[2] + 2) + j
      Rec(t, i, j) == cache[cix(i, j) + 1].q[t]
      step(d, i, j) == IF d = 1 THEN << i + 1, j >> ELSE << i, j + 1 >>
      FaceTerms(t, d, i, j, s) ==
        LET k == step(d, i, j)
            L == Face(nd, Rec(t, i, j), d, 1)[s]
            R == Face(nd, Rec(t, k[1], k[2]), d, 0)[s]
        IN [f |-> Rusanov(e.m, L, R, d, e.scale), b |-> JumpTerm(e.m, L, R, d)]
      full == { p \in Positions(e) : Full(e, p) }
      u0 == Cells(e.u0)
      u1 == Cells(e.u1)
      okCell(p) == LET k == CellIx(e, p[1], p[2])
                   IN VCloseS(u1[k], VAdd(u0[k], Update(e.m, e.nX, e.dt, e.dX, TRUE, N, Rec,
                                                        FaceTerms, p[1], p[2])), e.tol, F1)
  IN IF \A c \in marked : cache[c].ok
     THEN Req("step of the ADER scheme", \A p \in full : okCell(p))
     ELSE Req("the predictor has no solution", FALSE)

EventFaults(e) ==
  CASE e.ev = "basis" -> BasisEv(e)
    [] e.ev = "weno" -> WenoEv(e)
    [] e.ev = "fv" -> FvEv(e)
    [] e.ev = "uniform" -> UniformEv(e)
    [] e.ev = "mid" -> MidEv(e)
    [] e.ev = "ader" -> AderEv(e)
=============================================================================
