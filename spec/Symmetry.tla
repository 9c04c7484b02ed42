------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The symmetries of the equations on a grid.  A symmetry permutes the     *)
(* axes and turns some of them around,                                     *)
(*     x'[k] = s[k] x[p[k]],                                               *)
(* where grid axes go to grid axes; vectors (velocity, impulse) transform  *)
(* likewise and the distortion as s A s^T.  Periodic grids may be shifted, *)
(* and a one-dimensional grid is a two-dimensional one whose states do not *)
(* depend on the other coordinate.                                         *)
(***************************************************************************)
EXTENDS GPR

\* signed permutations p, s of the three axes
Turn(p, s, v) == [k \in 1..3 |-> IF s[k] = 1 THEN v[p[k]] ELSE FNeg(v[p[k]])]
TurnDist(p, s, a) ==        \* nine entries, row by row
  [x \in 1..9 |->
     LET r == ((x - 1) \div 3) + 1  c == ((x - 1) % 3) + 1
         y == a[(p[r] - 1) * 3 + p[c]]
     IN IF s[r] = s[c] THEN y ELSE FNeg(y)]
TurnState(p, s, Q) ==
  << Q[1], Q[2] >> \o Turn(p, s, SubSeq(Q, 3, 5)) \o TurnDist(p, s, SubSeq(Q, 6, 14))
  \o (IF THERMAL THEN Turn(p, s, SubSeq(Q, 15, 17)) ELSE << >>)
  \o SubSeq(Q, 15 + (IF THERMAL THEN 3 ELSE 0), NV)

\* coordinates of cell number c (from 0) of a grid, and back
Coord(nX, c) == IF Len(nX) = 1 THEN << c >> ELSE << c \div nX[2], c % nX[2] >>
Cell(nX, x) == IF Len(nX) = 1 THEN x[1] ELSE x[1] * nX[2] + x[2]
Cells(nX) == IF Len(nX) = 1 THEN nX[1] ELSE nX[1] * nX[2]

\* the grid a symmetry makes of a grid, and where a cell of it comes from
NewGrid(p, nX) == [k \in DOMAIN nX |-> nX[p[k]]]
Origin(p, s, shift, nX, x) ==
  LET nd == Len(nX)
      inv(j) == CHOOSE k \in 1..nd : p[k] = j
      y(j) == LET k == inv(j) IN IF s[k] = 1 THEN x[k] ELSE nX[j] - 1 - x[k]
  IN [j \in 1..nd |-> (y(j) + nX[j] - shift[j]) % nX[j]]

\* the states of the new grid, from those of the old one (as a sequence of cells)
Act(p, s, shift, nX, u) ==
  LET mX == NewGrid(p, nX)
  IN [c \in 1..Cells(mX) |-> TurnState(p, s, u[Cell(nX, Origin(p, s, shift, nX, Coord(mX, c - 1))) + 1])]

\* a one-dimensional grid along axis a of the grid mX
Embed(p, s, a, mX, u) == [c \in 1..Cells(mX) |-> TurnState(p, s, u[Coord(mX, c - 1)[a] + 1])]

\* cells away from the corners, where the reconstruction leaves out what reaches into them
Far(nX, x, reach) ==
  \/ Len(nX) = 1
  \/ \E k \in 1..2 : x[k] >= reach /\ x[k] < nX[k] - reach
=============================================================================
