------------------------------ MODULE MC_Grid ------------------------------
(***************************************************************************)
(* Exhaustive check of the design of ghost layers and working masks on all  *)
(* small grids.                                                             *)
(***************************************************************************)
EXTENDS Grid, TLC

CONSTANTS MaxN, MaxG, MaxMask

VARIABLES kind, g, nX, bt, x, mask
vars == << kind, g, nX, bt, x, mask >>

Sizes(nd) == [1..nd -> 1..MaxN]

InitGhost ==
  /\ kind = "ghost" /\ mask = << >>
  /\ g \in 1..MaxG
  /\ \E nd \in 1..2 :
       /\ nX \in { s \in Sizes(nd) : \A d \in 1..nd : s[d] >= g }
       /\ bt \in [1..(2 * nd) -> BoundaryTypes]
       /\ x \in { c \in [1..nd -> 0..(MaxN + 2 * MaxG - 1)] :
                  \A d \in 1..nd : c[d] < nX[d] + 2 * g }
InitMask ==
  /\ kind = "mask" /\ g = 1 /\ bt = << >> /\ x = << >>
  /\ \E nd \in 1..2 :
       /\ nX \in { s \in [1..nd -> 1..MaxMask] : Prod(s) <= 9 }
       /\ mask \in [ { c \in [1..nd -> 0..(MaxMask - 1)] : Inside(nX, c) } -> BOOLEAN ]
Init == InitGhost \/ InitMask
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* every ghost cell shows an interior cell, and the interior shows itself
SourceInside ==
  kind = "ghost" =>
    LET p == Provenance(nX, g, bt, x) IN
    /\ Inside(nX, p.cell)
    /\ ((\A d \in 1..Len(nX) : Side(nX[d], g, x[d]) = 0) =>
          p.cell = [d \in 1..Len(nX) |-> x[d] - g] /\ p.through = << >>)

\* reflecting sides mirror distances to the wall; a periodic axis repeats with its period;
\* a transmissive ghost shows the nearest cell
Distances ==
  kind = "ghost" =>
    \A d \in 1..Len(nX) :
      LET b == << bt[2 * d - 1], bt[2 * d] >>
          s == Side(nX[d], g, x[d])
          i == x[d] - g
          c == Provenance(nX, g, bt, x).cell[d]
      IN s # 0 =>
         CASE b[s] = PERIODIC -> (c - i) % nX[d] = 0
           [] b[s] = TRANSMISSIVE -> \A k \in 0..(nX[d] - 1) :
                 (IF c > i THEN c - i ELSE i - c) <= (IF k > i THEN k - i ELSE i - k)
           [] OTHER -> LET wall2 == IF s = 1 THEN -1 ELSE 2 * nX[d] - 1   \* twice its position
                       IN 2 * i - wall2 = wall2 - 2 * c

\* the update of every marked cell finds all the cells of its faces marked, and the demands agree
FacesMarked ==
  kind = "mask" =>
    LET e == Extended(nX, 1)
        cells == { c \in [1..Len(nX) -> 0..(MaxMask + 1)] : Inside(e, c) }
    IN /\ \A c \in DOMAIN mask : mask[c] => \A f \in FaceCells(nX, c) : MustMark(nX, mask, f)
       /\ \A c \in cells : MustMark(nX, mask, c) => MayMark(nX, mask, c)
       /\ \A c \in cells : OnEdges(nX, c) = 0 => (MustMark(nX, mask, c) <=> MayMark(nX, mask, c))
=============================================================================
