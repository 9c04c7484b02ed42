------------------------------- MODULE Multi -------------------------------
(***************************************************************************)
(* Several materials on one grid: ownership, level sets as signed          *)
(* distances, ghost cells by material, and the merge after a step.         *)
(* Cells are numbered 0, 1, ... in row-major order; a field of numbers is  *)
(* a sequence with the value of cell k at position k + 1.                  *)
(***************************************************************************)
EXTENDS GPR, Grid

CONSTANT N

CellOf(u, k) == SubSeq(u, k * NV + 1, (k + 1) * NV)
Cells(nX) == 0..(Prod(nX) - 1)
At(f, k) == f[k + 1]
\* the neighbours of cell k along axis d
Along(nX, k, d) ==
  { IndexOf(nX, y) : y \in { z \in { Shift(Coords(nX, k), d, s) : s \in {-1, 1} } : Inside(nX, z) } }
Faces(nX, k) == UNION { Along(nX, k, d) : d \in 1..Len(nX) }

FSgn(a) == IF FLt(a, F0) THEN -1 ELSE IF FLt(F0, a) THEN 1 ELSE 0
SignTo(s, a) == IF s < 0 THEN FNeg(a) ELSE a
RECURSIVE MinOver(_)
MinOver(S) == LET x == CHOOSE y \in S : TRUE
              IN IF S = {x} THEN x ELSE FMin(x, MinOver(S \ {x}))
SameBits(a, c) == \A k \in DOMAIN c : FEq(a[k], c[k]) \/ (FIsNaN(a[k]) /\ FIsNaN(c[k]))

----------------------------------------------------------------------------
(* Signed distances: d is the renormalised field of p *)
Crosses(p, k, j) == FSgn(At(p, k)) * FSgn(At(p, j)) = -1
HasInterface(nX, p) ==
  \/ \E k \in Cells(nX) : FSgn(At(p, k)) = 0
  \/ \E k \in Cells(nX) : \E j \in Faces(nX, k) : Crosses(p, k, j)
Touches(nX, p, k) == FSgn(At(p, k)) = 0 \/ \E j \in Faces(nX, k) : Crosses(p, k, j)
\* distance from k to the zero crossing, along the line to a neighbour, of the linear interpolant
Crossing(nX, dX, p, k) ==
  IF FSgn(At(p, k)) = 0 THEN F0
  ELSE MinOver(UNION { { FAbs((dX[d] (.) At(p, k)) (/) (At(p, k) (-) At(p, j)))
                         : j \in { i \in Along(nX, k, d) : Crosses(p, k, i) } } : d \in 1..Len(nX) })
\* larger root of sum over d of ((T - a_d)/h_d)^2 = 1, for two directions
Root2(a, h, b, g) ==
  LET wa == F1 (/) Sq(h)  wb == F1 (/) Sq(g)
      s == wa (+) wb
      m == ((wa (.) a) (+) (wb (.) b)) (/) s
      disc == (F1 (/) s) (-) (((wa (.) wb) (/) Sq(s)) (.) Sq(a (-) b))
  IN m (+) FSqrt(disc)
\* the solutions of the upwind discretisation at k given the neighbours' distances
Upwind(nX, dX, p, dist, k) ==
  LET near(d) == { FAbs(At(dist, j)) : j \in Along(nX, k, d) }
      dims == { d \in 1..Len(nX) : near(d) # {} }
      a(d) == MinOver(near(d))
      one(d) == a(d) (+) dX[d]
      low == MinOver({ one(d) : d \in dims })
  IN IF Cardinality(dims) = 1 \/ \E d \in dims : \A e \in dims \ {d} : FLe(one(d), a(e))
     THEN {low} \cup (IF Cardinality(dims) = 2
                         /\ FLt(Sq(a(1) (-) a(2)), Sq(dX[1]) (+) Sq(dX[2]))
                         /\ ~FEq(dX[1], dX[2])
                      THEN {Root2(a(1), dX[1], a(2), dX[2])} ELSE {})
     ELSE {Root2(a(1), dX[1], a(2), dX[2])}

DistanceFaults(nX, dX, p, dist) ==
  LET tol == FS("1e-9") (.) FMax(dX[1], dX[Len(nX)])
      Name(s, b) == IF b THEN {} ELSE {s}
  IN IF ~HasInterface(nX, p)
     THEN Name("a level set without an interface was changed", SameBits(dist, p))
     ELSE UNION { Name("sign of a level set", FSgn(At(dist, k)) = FSgn(At(p, k)))
                  \cup (IF Touches(nX, p, k)
                        THEN Name("distance next to the interface",
                                  FClose(FAbs(At(dist, k)), Crossing(nX, dX, p, k), FS("1e-9"), F0))
                        ELSE Name("distance away from the interface",
                                  \E T \in Upwind(nX, dX, p, dist, k) : FClose(FAbs(At(dist, k)), T, F0, tol)))
                : k \in Cells(nX) }

----------------------------------------------------------------------------
(* The indicator of a material is negative in its cells: the largest of the *)
(* level sets that have to be negative and the negatives of those that must *)
(* not be.                                                                  *)
RECURSIVE MaxSeq(_, _)
MaxSeq(s, k) == IF k = 1 THEN s[1] ELSE FMax(s[k], MaxSeq(s, k - 1))
Indicator(u, nX, mat, nmat) ==
  LET ls(k) == LevelSets(CellOf(u, k))
      used == IF nmat > 2 THEN LSET ELSE 1
      val(k) == MaxSeq([i \in 1..used |-> IF i <= mat THEN FNeg(ls(k)[i]) ELSE ls(k)[i]], used)
  IN Build(Prod(nX), LAMBDA k : val(k - 1))

----------------------------------------------------------------------------
(* Layers around a material whose indicator is p: own cells are those in    *)
(* which it is not positive; an own cell of a 2D grid without own           *)
(* neighbours is isolated and does not count.                               *)
Own(p, k) == ~FLt(F0, At(p, k))
Isolated(nX, p, k) ==
  Len(nX) = 2 /\ Own(p, k) /\ ~\E j \in Faces(nX, k) : Own(p, j)
Solid(nX, p, k) == Own(p, k) /\ ~Isolated(nX, p, k)
First(nX, p) == { k \in Cells(nX) : ~Own(p, k) /\ \E j \in Faces(nX, k) : Solid(nX, p, j) }
\* layers[i]: the cells of layer i, up to n layers
Layers(nX, p, n) ==
  LET free == { k \in Cells(nX) : ~Own(p, k) }
      RECURSIVE grow(_, _, _)
      grow(ls, seen, i) ==
        IF i >= n \/ ls[i] = {} THEN ls
        ELSE LET nxt == { k \in free \ seen : \E j \in Faces(nX, k) : j \in ls[i] }
             IN grow(Append(ls, nxt), seen \cup nxt, i + 1)
  IN grow(<< First(nX, p) >>, First(nX, p), 1)
Marked(nX, p, k) == Solid(nX, p, k) \/ k \in First(nX, p)
LayerCount == 10 * N

\* central differences, repeated at the edges
Gradient(nX, dX, p) ==
  LET g(k, d) ==
        LET c == Coords(nX, k)
            i == IF c[d] = 0 THEN 1 ELSE IF c[d] = nX[d] - 1 THEN nX[d] - 2 ELSE c[d]
            v(s) == At(p, IndexOf(nX, [c EXCEPT ![d] = i + s]))
        IN (v(1) (-) v(-1)) (/) (F2 (.) dX[d])
  IN Build(Prod(nX), LAMBDA k : Build(Len(nX), LAMBDA d : g(k - 1, d)))
Norm(v) == FSqrt(VDot(v, v))

\* the cells that contain point x (in units of cells), with some slack; outside points at the edge
FFloor(a) == LET t == FTrunc(a) IN IF FLt(a, FI(t)) THEN t - 1 ELSE t
Slack == FS("1e-9")
Containing(x) ==
  LET c(d) == { FFloor(x[d] (-) Slack), FFloor(x[d]), FFloor(x[d] (+) Slack) }
  IN IF Len(x) = 1 THEN { << a >> : a \in c(1) } ELSE { << a, b >> : a \in c(1), b \in c(2) }
ToEdge(nX, c) == [d \in 1..Len(nX) |-> IF c[d] < 0 THEN 0
                                       ELSE IF c[d] >= nX[d] THEN nX[d] - 1 ELSE c[d]]
EdgeCells(nX, x) == { IndexOf(nX, ToEdge(nX, c)) : c \in Containing(x) }

\* the normals, and the pairs of cells, from which the interface state of first-layer cell k may be
\* computed: the probes lie at the interface point and one cell width either side of it
Probes(nX, dX, p, grad, owner(_), mat, k) ==
  LET g == grad[k + 1]
      c == Coords(nX, k)
      nbrs == { j \in Faces(nX, k) : Solid(nX, p, j) }
      toward(j) == Build(Len(nX), LAMBDA d : FI(c[d] - Coords(nX, j)[d]))
      ns == IF FLt(F0, Norm(g)) THEN { VScale(F1 (/) Norm(g), g) } ELSE { toward(j) : j \in nbrs }
      at(n, s) == Build(Len(nX), LAMBDA d :
                    ((FI(2 * c[d] + 1) (/) F2) (-) ((At(p, k) (.) n[d]) (/) dX[d])) (+) (s (.) n[d]))
      own(S) == { j \in S : owner(j) = mat }
      axis(n, d) == Build(Len(nX), LAMBDA e : IF e = d THEN FI(FSgn(n[d])) ELSE F0)
      back(n, d) == Shift(c, d, -FSgn(n[d]))
      viaAxis(n, d) == Len(nX) = 2 /\ FSgn(n[d]) # 0 /\ Inside(nX, back(n, d))
                       /\ owner(IndexOf(nX, back(n, d))) = mat
      one(n) ==
        LET I == EdgeCells(nX, at(n, F0))
            L == EdgeCells(nX, at(n, FI(-1)))
            R == EdgeCells(nX, at(n, F1))
            d0 == IF Len(nX) = 1 THEN 1 ELSE IF FLt(FAbs(n[2]), FAbs(n[1])) THEN 1 ELSE 2
        IN { << l, r, n >> : l \in own(I), r \in R }
           \cup (IF own(I) = I THEN {} ELSE { << l, r, n >> : l \in own(L), r \in R })
           \cup (IF own(I) = I \/ own(L) = L THEN {}
                 ELSE IF viaAxis(n, d0) THEN { << IndexOf(nX, back(n, d0)), r, axis(n, d0) >> : r \in R }
                 ELSE IF Len(nX) = 2 /\ viaAxis(n, 3 - d0)
                 THEN { << IndexOf(nX, back(n, 3 - d0)), r, axis(n, 3 - d0) >> : r \in R }
                 ELSE { << j, k, toward(j) >> : j \in nbrs })
  IN UNION { one(n) : n \in ns }

\* the cells from which cell k of layer i >= 2 may be filled
Sources(nX, grad, layerOf(_), isolated(_), k, i) ==
  LET g == grad[k + 1]
      c == Coords(nX, k)
      n == VScale(F1 (/) Norm(g), g)
      x == Build(Len(nX), LAMBDA d : (FI(2 * c[d] + 1) (/) F2) (-) n[d])
      fall == { j \in Faces(nX, k) : layerOf(j) = i - 1 }
      step(y) == IF ~Inside(nX, y) THEN fall
                 ELSE LET j == IndexOf(nX, y) IN
                      IF layerOf(j) \in 1..(i - 1) THEN {j}
                      ELSE IF layerOf(j) = i \/ isolated(j) THEN {j} \cup fall
                      ELSE fall
  IN IF FLt(F0, Norm(g)) THEN UNION { step(y) : y \in Containing(x) } ELSE fall

----------------------------------------------------------------------------
(* The merge: level sets are averaged over the materials for which the cell *)
(* is marked; the rest comes from the new owner's grid.                     *)
Merged(u, grids, masks, vacuum(_), k) ==
  LET ms == SelectSeq([i \in 1..Len(grids) |-> i], LAMBDA i : masks[i][k + 1] = 1)
      old == CellOf(u, k)
      mean == VScale(F1 (/) FI(Len(ms)), VSumOf(LAMBDA j : LevelSets(CellOf(grids[ms[j]], k)), 1, Len(ms)))
      ls == IF ms = << >> \/ LSET = 0 THEN LevelSets(old) ELSE mean
      o == MaterialIndex(SubSeq(old, 1, NV - LSET) \o ls)
  IN (IF vacuum(o) THEN VZero(NV - LSET) ELSE SubSeq(CellOf(grids[o + 1], k), 1, NV - LSET)) \o ls
=============================================================================
