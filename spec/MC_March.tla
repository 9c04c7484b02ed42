------------------------------ MODULE MC_March ------------------------------
(***************************************************************************)
(* Fast marching: cells next to the interface get their distance at once,   *)
(* then the trial cell of least distance is accepted, again and again.      *)
(* However ties are broken, the distances are those of DistanceFaults (what *)
(* the implementation is held to), and the same.                            *)
(***************************************************************************)
EXTENDS Multi

CONSTANTS MaxCells,
          Below, Above, \* sizes of the negative and the other values of the level set
          Wide,        \* width of a cell along y; 1 along x
          AnyTrial     \* faulty design: any trial cell is accepted, not the one of least distance

Grids == { << n >> : n \in 2..MaxCells }
         \cup { g \in { << a, b >> : a, b \in 2..MaxCells } : Prod(g) <= MaxCells }

VARIABLES nX, dX, p, dist, done, trial
vars == << nX, dX, p, dist, done, trial >>

\* larger root of the upwind discretisation from the accepted neighbours; keep if there is none
Value(acc, d, k, keep) ==
  LET near(e) == { FAbs(At(d, j)) : j \in Along(nX, k, e) \cap acc }
      dims == { e \in 1..Len(nX) : near(e) # {} }
      a(e) == MinOver(near(e))
  IN IF Cardinality(dims) = 1 THEN LET e == CHOOSE e \in dims : TRUE IN a(e) (+) dX[e]
     ELSE IF FLt(Sq(a(1) (-) a(2)), Sq(dX[1]) (+) Sq(dX[2])) THEN Root2(a(1), dX[1], a(2), dX[2])
     ELSE keep
Reach(acc) == { k \in Cells(nX) \ acc : Faces(nX, k) \cap acc # {} }
SetAt(f, k, v) == [f EXCEPT ![k + 1] = v]

Begin(q, n, h) ==
  LET acc == { k \in Cells(n) : Touches(n, q, k) }
  IN << acc, Build(Prod(n), LAMBDA k : IF (k - 1) \in acc
                                       THEN SignTo(FSgn(At(q, k - 1)), Crossing(n, h, q, k - 1)) ELSE F0) >>
Init ==
  /\ nX \in Grids
  /\ dX = Build(Len(nX), LAMBDA d : IF d = 1 THEN F1 ELSE FI(Wide))
  /\ \E f \in [1..Prod(nX) -> Above \cup { -v : v \in Below }] : p = Build(Prod(nX), LAMBDA k : FI(f[k]))
  /\ HasInterface(nX, p)
  /\ done = Begin(p, nX, dX)[1]
  /\ dist = Begin(p, nX, dX)[2]
  /\ trial = << >>

\* the trial values, from scratch: [k |-> value]
Fresh == [k \in Reach(done) |->
            Value(done, dist, k, IF k \in DOMAIN trial THEN trial[k] ELSE F0)]
Accept(k) ==
  LET t == Fresh IN
  /\ k \in DOMAIN t
  /\ AnyTrial \/ \A j \in DOMAIN t : FLe(t[k], t[j])
  /\ dist' = SetAt(dist, k, SignTo(FSgn(At(p, k)), t[k]))
  /\ done' = done \cup {k}
  /\ trial' = t
  /\ UNCHANGED << nX, dX, p >>
Next == \E k \in Cells(nX) : Accept(k)
Spec == Init /\ [][Next]_vars

\* breaking ties by the cell's number
RECURSIVE Canonical(_, _, _)
Canonical(acc, d, tr) ==
  LET reach == Reach(acc)
      t == [k \in reach |-> Value(acc, d, k, IF k \in DOMAIN tr THEN tr[k] ELSE F0)]
      k == CHOOSE k \in reach : \A j \in reach : FLt(t[k], t[j]) \/ (FEq(t[k], t[j]) /\ k <= j)
  IN IF reach = {} THEN d
     ELSE Canonical(acc \cup {k}, SetAt(d, k, SignTo(FSgn(At(p, k)), t[k])), t)

Complete == done = Cells(nX)
Distances == Complete => DistanceFaults(nX, dX, p, dist) = {}
TiesDoNotMatter ==
  Complete => LET b == Begin(p, nX, dX) IN VClose(dist, Canonical(b[1], b[2], << >>), F0, FS("1e-12"))
=============================================================================
