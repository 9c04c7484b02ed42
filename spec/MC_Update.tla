------------------------------ MODULE MC_Update ------------------------------
(***************************************************************************)
(* The finite-volume update on all small grids, one face at a time: the     *)
(* flux of a face enters exactly the cells that it divides, with opposite   *)
(* signs, and jump terms with equal signs; the flux of an outer face enters *)
(* one cell; a face beyond the grid none.  By linearity the update is        *)
(* conservative for every flux.                                             *)
(***************************************************************************)
EXTENDS Scheme, Grid

CONSTANTS MaxN,
          BothUp      \* faulty design: both faces of a cell are counted as upper ones

VARIABLES nX, dX, dt, nt, face, ready
vars == << nX, dX, dt, nt, face, ready >>
given == << nX, dX, dt, nt, face >>

Init ==
  /\ ready = FALSE
  /\ nX \in [1..1 -> 1..(2 * MaxN)] \cup [1..2 -> 1..MaxN]
  /\ dX = Build(Len(nX), LAMBDA d : IF d = 1 THEN FQ(1, 4) ELSE FQ(1, 2))
  /\ dt \in { FQ(1, 8), F1 }
  /\ nt \in {1, N}
  \* the face above the cell c of the grid with one layer of ghost cells, at a time and a face node
  /\ \E d \in 1..Len(nX), t \in 1..nt, s \in 1..FaceNodes(Len(nX)) :
       \E c \in { x \in [1..Len(nX) -> 0..(2 * MaxN)] : \A e \in 1..Len(nX) : x[e] <= nX[e] } :
         face = [d |-> d, t |-> t, s |-> s, c |-> c]
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given     \* so that workers share the states
Spec == Init /\ [][Next]_vars

One == Build(NV, LAMBDA k : F1)
At_(i, j) == IF Len(nX) = 1 THEN << i >> ELSE << i, j >>
\* Update counts ghost cells: in one dimension the second index is not used
IsFace(t, d, i, j, s) == d = face.d /\ t = face.t /\ s = face.s /\ At_(i, j) = face.c
Terms(what, t, d, i, j, s) ==
  LET on == VScale(IF IsFace(t, d, i, j, s) THEN F1 ELSE F0, One) IN
  [f |-> IF what = "flux" THEN on ELSE VZero(NV), b |-> IF what = "jump" THEN on ELSE VZero(NV)]
Rest == Build(NNodes(Len(nX)), LAMBDA k : << F1, F1 >> \o VZero(3) \o Flat(MId(3)) \o VZero(NV - 14))
Got(what, x) ==
  Update(<< >>, nX, dt, dX, FALSE, nt, LAMBDA t, i, j : Rest,
         LAMBDA t, d, i, j, s : Terms(what, t, d, i, j, s), x[1], IF Len(nX) = 1 THEN 0 ELSE x[2])[1]
\* what the face is worth
Worth ==
  LET tw == IF nt = 1 THEN dt ELSE dt (.) Weights[face.t]
  IN (tw (.) FaceWeight(Len(nX), face.s)) (/) (F2 (.) dX[face.d])
Lower == [e \in 1..Len(nX) |-> face.c[e] - 1]     \* the cells it divides, interior ones counted from 0
Upper == [e \in 1..Len(nX) |-> face.c[e] - (IF e = face.d THEN 0 ELSE 1)]
Sign(x, s) == IF x = Lower THEN -1 ELSE IF x = Upper THEN (IF BothUp THEN -1 ELSE s) ELSE 0
Near(a, b) == FClose(a, b, FS("1e-13"), FS("1e-16"))
Interior_ == { x \in [1..Len(nX) -> 0..(2 * MaxN)] : \A e \in 1..Len(nX) : x[e] < nX[e] }
OneFluxPerFace == \A x \in Interior_ : Near(Got("flux", x), FI(Sign(x, 1)) (.) Worth)
JumpsOnBothSides == \A x \in Interior_ : Near(Got("jump", x), FI(Sign(x, -1)) (.) Worth)
Conservative ==
  (Lower \in Interior_ /\ Upper \in Interior_) =>
    FClose(Got("flux", Lower) (+) Got("flux", Upper), F0, F0, FS("1e-15"))
\* the faces of one direction share out the time step
Shares == FClose(FSumOf(LAMBDA t : IF nt = 1 THEN F1 ELSE Weights[t], 1, nt)
                 (.) FSumOf(LAMBDA s : FaceWeight(Len(nX), s), 1, FaceNodes(Len(nX))), F1, FS("1e-14"), F0)
Holds == ready =>
  /\ OneFluxPerFace
  /\ JumpsOnBothSides
  /\ Conservative
  /\ Shares
=============================================================================
