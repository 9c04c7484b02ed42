------------------------------- MODULE MC_Sym -------------------------------
(***************************************************************************)
(* The equations of the specification have the symmetries that runs of the  *)
(* implementation are held to, for all 48 signed permutations of the axes:  *)
(* turning the state turns the flux, the non-conservative terms and the     *)
(* sources; and the action on grids is one of a group.                      *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets

CONSTANTS Plain       \* faulty design: the distortion is turned like three vectors, one per row

VARIABLES p, s, Q, kind, d, ready
vars == << p, s, Q, kind, d, ready >>
given == << p, s, Q, kind, d >>

Perms == { f \in [1..3 -> 1..3] : Cardinality({ f[k] : k \in 1..3 }) = 3 }
Signs == [1..3 -> {-1, 1}]
Base == [EOS |-> SG, gamma |-> FQ(7, 5), pINF |-> F0, rho0 |-> F1, b02 |-> F2, beta |-> FQ(1, 3),
         cal2 |-> F2, kappa |-> FQ(1, 10), cv |-> F1, Tref |-> F0, mu |-> FQ(1, 10), tau0 |-> F1,
         sigY |-> F1, n |-> F2, SOLID |-> FALSE, POWER_LAW |-> FALSE, BINGHAM |-> FALSE,
         REACTION |-> -1, Qc |-> F0, dp |-> VZero(3)]
Mat ==
  CASE kind = "viscous" -> Base
    [] kind = "plastic" -> [Base EXCEPT !.SOLID = TRUE, !.POWER_LAW = TRUE]
    [] kind = "bingham" -> [Base EXCEPT !.BINGHAM = TRUE, !.sigY = FQ(1, 10)]
    [] kind = "solid" -> [Base EXCEPT !.EOS = GR, !.SOLID = TRUE] @@ [alpha |-> F1, c02 |-> F2]
Vels == { << 0, 0, 0 >>, << 1, -2, 3 >> }
Strains == { << 0, 0, 0, 0, 0, 0, 0, 0, 0 >>, << 1, 0, 0, 0, 0, 0, 0, 0, 0 >>, << 1, 2, -1, 0, 3, 1, -2, 1, -1 >> }
State(v, a) ==
  LET r == FQ(11, 10) IN
  << r, FI(20) >> \o Build(3, LAMBDA k : FQ(v[k], 2))
  \o Build(9, LAMBDA k : FQ(a[k], 10) (+) (IF k \in {1, 5, 9} THEN F1 ELSE F0))
  \o (IF THERMAL THEN << FQ(1, 5), F0, FQ(-1, 3) >> ELSE << >>) \o (IF LSET > 0 THEN VZero(LSET) ELSE << >>)

Init ==
  /\ ready = FALSE
  /\ p \in Perms /\ s \in Signs /\ d \in 1..3
  /\ kind \in {"viscous", "plastic", "bingham", "solid"}
  /\ \E v \in Vels, a \in Strains : Q = State(v, a)
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given     \* so that workers share the states
Spec == Init /\ [][Next]_vars

G(q) == IF Plain
        THEN << q[1], q[2] >> \o Turn(p, s, SubSeq(q, 3, 5)) \o Turn(p, s, SubSeq(q, 6, 8))
             \o Turn(p, s, SubSeq(q, 9, 11)) \o Turn(p, s, SubSeq(q, 12, 14)) \o SubSeq(q, 15, NV)
        ELSE TurnState(p, s, q)
Close(a, b) == VClose(Seq_(a), Seq_(b), FS("1e-12"), FS("1e-12"))
Signed(v) == IF s[d] = 1 THEN v ELSE VNeg(v)

FluxTurns == Close(Flux(Mat, G(Q), d), Signed(G(Flux(Mat, Q, p[d]))))
AdvectionTurns ==
  LET x == VHad(Q, Q) IN Close(NonConservative(Mat, G(Q), G(x), d), Signed(G(NonConservative(Mat, Q, x, p[d]))))
SourceTurns == Close(Source(Mat, G(Q)), G(Source(Mat, Q)))

\* the action on grids: turning after turning is turning, and nothing is lost
Small == << 2, 3 >>
Tag(nX) == [c \in 1..Cells(nX) |-> Q]
OnGrid == p[3] = 3
Bijective ==
  OnGrid =>
    LET mX == NewGrid(p, Small) IN
    /\ { Origin(p, s, << d - 1, 1 >>, Small, Coord(mX, c - 1)) : c \in 1..Cells(mX) }
         = { Coord(Small, c - 1) : c \in 1..Cells(Small) }
    /\ \A c \in 0..(Cells(mX) - 1) : Cell(mX, Coord(mX, c)) = c
\* the inverse of (p, s)
InvP == [k \in 1..3 |-> CHOOSE j \in 1..3 : p[j] = k]
InvS == [k \in 1..3 |-> s[InvP[k]]]
Inverse == TurnState(InvP, InvS, TurnState(p, s, Q)) = Q
Holds == ready =>
  /\ FluxTurns
  /\ AdvectionTurns
  /\ SourceTurns
  /\ Bijective
  /\ Inverse
=============================================================================
