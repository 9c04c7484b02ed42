------------------------------- MODULE MC_Fill -------------------------------
(***************************************************************************)
(* Ghost filling of one material on a small grid.  Cells hold symbols: an    *)
(* original state, or the interface state of an original pair.  Threads      *)
(* compute the interface states of the first layer in any order; then the    *)
(* layers beyond are filled from cells filled before.  The result depends    *)
(* on no order, every ghost cell within reach is filled with an interface    *)
(* state, and the material's own cells keep their values.                    *)
(***************************************************************************)
EXTENDS Multi

CONSTANTS MaxCells,
          Immediate,    \* faulty design: interface states are written as soon as they are known
          OneSweep      \* faulty design: layers are not told apart, any filled neighbour will do

Grids == { << n >> : n \in 2..MaxCells }
         \cup { g \in { << a, b >> : a, b \in 2..MaxCells } : Prod(g) <= MaxCells }

VARIABLES nX, p, phase, todo, grid, stars, layer
vars == << nX, p, phase, todo, grid, stars, layer >>

Ring == First(nX, p)
Orig(k) == << "cell", k >>
\* the cells whose states make the interface state of k: an own neighbour, and what lies beyond
LeftOf(k) == CHOOSE j \in Faces(nX, k) : Solid(nX, p, j) /\ \A i \in Faces(nX, k) : Solid(nX, p, i) => j <= i
RightOf(k) == LET c == { j \in Faces(nX, k) : ~Own(p, j) } IN
              IF c = {} THEN k ELSE CHOOSE j \in c : \A i \in c : j >= i
Star(l, r) == << "star", l, r >>

Init ==
  /\ nX \in Grids
  /\ \E f \in [1..Prod(nX) -> {0, 1}] : p = Build(Prod(nX), LAMBDA k : FI(2 * f[k] - 1))
  /\ phase = "interface" /\ todo = Ring
  /\ grid = [k \in Cells(nX) |-> Orig(k)]
  /\ stars = << >>
  /\ layer = [k \in Cells(nX) |-> IF k \in Ring THEN 1 ELSE 0]

Compute(k) ==
  /\ phase = "interface" /\ k \in todo
  /\ todo' = todo \ {k}
  /\ LET v == Star(grid[LeftOf(k)], grid[RightOf(k)]) IN
     /\ stars' = [j \in DOMAIN stars \cup {k} |-> IF j = k THEN v ELSE stars[j]]
     /\ grid' = IF Immediate THEN [grid EXCEPT ![k] = v] ELSE grid
  /\ UNCHANGED << nX, p, phase, layer >>
Write ==
  /\ phase = "interface" /\ todo = {}
  /\ grid' = [k \in Cells(nX) |-> IF k \in Ring THEN stars[k] ELSE grid[k]]
  /\ phase' = "extend"
  /\ UNCHANGED << nX, p, todo, stars, layer >>

\* layers: a cell next to layer i takes the value of such a neighbour
Free == { k \in Cells(nX) : layer[k] = 0 /\ ~Own(p, k) }
Depth(k) == LET ls == { layer[j] : j \in { i \in Faces(nX, k) : layer[i] > 0 } }
            IN IF ls = {} THEN 0 ELSE CHOOSE a \in ls : \A b \in ls : a <= b
Current == { Depth(k) : k \in Free } \ {0}
Extend(k) ==
  /\ phase = "extend" /\ k \in Free /\ Depth(k) > 0
  /\ OneSweep \/ \A d \in Current : Depth(k) <= d
  /\ \E j \in { i \in Faces(nX, k) : IF OneSweep THEN layer[i] > 0 ELSE layer[i] = Depth(k) } :
       /\ grid' = [grid EXCEPT ![k] = grid[j]]
       /\ layer' = [layer EXCEPT ![k] = layer[j] + 1]
  /\ UNCHANGED << nX, p, phase, todo, stars >>
Next == Write \/ \E k \in Cells(nX) : Compute(k) \/ Extend(k)
Spec == Init /\ [][Next]_vars

OwnKept == \A k \in Cells(nX) : Own(p, k) => grid[k] = Orig(k)
Originals == \A k \in DOMAIN stars : stars[k] = Star(Orig(LeftOf(k)), Orig(RightOf(k)))
Complete == phase = "extend" /\ \A k \in Free : Depth(k) = 0
\* the layers are those that the trace specification asks for
LayersAreLayers ==
  Complete => LET ls == Layers(nX, p, Prod(nX) + 1) IN
              \A k \in Cells(nX) : ~Own(p, k) =>
                IF layer[k] = 0 THEN \A i \in DOMAIN ls : k \notin ls[i] ELSE k \in ls[layer[k]]
FromTheInterface == Complete => \A k \in Cells(nX) : layer[k] > 0 => grid[k][1] = "star"
\* every marked cell is an own one or holds an interface state: nothing of the other side is advanced
MarkedAreOurs == phase = "extend" => \A k \in Cells(nX) : Marked(nX, p, k) => (Own(p, k) \/ grid[k][1] = "star")
=============================================================================
