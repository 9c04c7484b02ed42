-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* A grid of one or two dimensions, its ghost layers and its masks.        *)
(*                                                                         *)
(* Ghost layers are described by provenance: which interior cell a ghost   *)
(* cell mirrors, and which transformations its value undergoes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TRANSMISSIVE == 0  PERIODIC == 1  SLIP == 2  STICK == 3  MOVING == 4  SYMMETRIC == 5
BoundaryTypes == 0..5

\* along one axis: n cells numbered 0..n-1, g ghost layers either side; the extended
\* axis is numbered 0..n+2g-1.  The cell that extended cell x shows, and the boundary
\* type (-1: none) through which it is seen.
Side(n, g, x) == IF x < g THEN 1 ELSE IF x >= n + g THEN 2 ELSE 0
Source1(n, g, bt, x) ==
  LET s == Side(n, g, x)  i == x - g IN
  IF s = 0 THEN i
  ELSE CASE bt[s] = TRANSMISSIVE -> IF s = 1 THEN 0 ELSE n - 1
         [] bt[s] = PERIODIC -> IF s = 1 THEN n + i ELSE i - n
         [] OTHER -> IF s = 1 THEN -1 - i ELSE 2 * n - 1 - i
Seen(n, g, bt, x) == IF Side(n, g, x) = 0 THEN -1 ELSE bt[Side(n, g, x)]

\* the provenance of an extended cell: the coordinates of the interior cell, and the
\* sequence of <<boundary type, axis>> through which it is seen (x first, then y)
Provenance(nX, g, bt, x) ==
  LET nd == Len(nX)
      b(d) == << bt[2 * d - 1], bt[2 * d] >>
      seen(d) == IF Seen(nX[d], g, b(d), x[d]) \in {SLIP, STICK, MOVING, SYMMETRIC}
                 THEN << << Seen(nX[d], g, b(d), x[d]), d >> >> ELSE << >>
  IN [ cell |-> [d \in 1..nd |-> Source1(nX[d], g, b(d), x[d])],
       through |-> IF nd = 1 THEN seen(1) ELSE seen(1) \o seen(2) ]

----------------------------------------------------------------------------
(* Row-major numbering *)
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))
Coords(nX, k) ==    \* of the k-th cell, k = 0, 1, ...
  IF Len(nX) = 1 THEN << k >> ELSE << k \div nX[2], k % nX[2] >>
IndexOf(nX, x) == IF Len(nX) = 1 THEN x[1] ELSE x[1] * nX[2] + x[2]
Inside(nX, x) == \A d \in 1..Len(nX) : x[d] >= 0 /\ x[d] < nX[d]
Extended(nX, g) == [d \in 1..Len(nX) |-> nX[d] + 2 * g]

Shift(x, d, s) == [x EXCEPT ![d] = @ + s]
Neighbours(nX, x) ==
  { y \in { Shift(x, d, s) : d \in 1..Len(nX), s \in {-1, 1} } : Inside(nX, y) }

----------------------------------------------------------------------------
(* The working mask: one layer of ghost cells, marked cells and their face  *)
(* neighbours.  mask is a function of cell coordinates.                     *)
Dilated(nX, mask, x) == mask[x] \/ \E y \in Neighbours(nX, x) : mask[y]

\* what has to be marked, and what may be marked, in the extended grid (x: extended coordinates)
Inner(x) == [d \in 1..Len(x) |-> x[d] - 1]
OnEdges(nX, x) == Cardinality({ d \in 1..Len(nX) : x[d] = 0 \/ x[d] = nX[d] + 1 })
Clamp(nX, x) == [d \in 1..Len(nX) |-> IF x[d] = 0 THEN 0
                                      ELSE IF x[d] = nX[d] + 1 THEN nX[d] - 1 ELSE x[d] - 1]
MustMark(nX, mask, x) ==
  CASE OnEdges(nX, x) = 0 -> Dilated(nX, mask, Inner(x))
    [] OnEdges(nX, x) = 1 -> mask[Clamp(nX, x)]
    [] OTHER -> FALSE
MayMark(nX, mask, x) == OnEdges(nX, x) = 2 \/ Dilated(nX, mask, Clamp(nX, x))

\* the faces of the extended grid are pairs of neighbouring extended cells; the update of a
\* marked cell uses the faces around it, which needs both cells of each to be marked
FaceCells(nX, x) ==
  LET c == [a \in 1..Len(nX) |-> x[a] + 1] IN { Shift(c, d, s) : d \in 1..Len(nX), s \in {-1, 0, 1} }
=============================================================================
