------------------------------- MODULE MC_Weno -------------------------------
(***************************************************************************)
(* The reconstruction of the specification on all small data: it keeps the  *)
(* average of the cell, is exact for polynomials of degree below N, has no  *)
(* direction, does not oscillate at a jump; and the choice of stencils is   *)
(* never empty, has no direction either, and stays inside the row.          *)
(***************************************************************************)
EXTENDS Scheme, FiniteSets

CONSTANTS Values,      \* of the data
          MaxRow,      \* longest row for the choice of stencils
          Lopsided     \* faulty design: the upper end lets one cell more through

VARIABLES kind, data, use, c, nx, gap, ready
vars == << kind, data, use, c, nx, gap, ready >>
given == << kind, data, use, c, nx, gap >>

All == { Kinds[k] : k \in DOMAIN Kinds }
InitData ==
  /\ kind = "data" /\ c = 0 /\ nx = 0 /\ gap = 0
  /\ \E f \in [1..(2 * N - 1) -> Values] : data = f
  /\ use \in (SUBSET All) \ {{}}
InitRow ==
  /\ kind = "row" /\ data = << >> /\ use = {}
  /\ nx \in 1..MaxRow /\ c \in 0..(MaxRow - 1) /\ c < nx
  /\ gap \in {0, 1, N}
Init == ready = FALSE /\ (InitData \/ InitRow)
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given     \* so that workers share the states
Spec == Init /\ [][Next]_vars

Rec(f, ks) == LET r == Reconstruct(Build(2 * N - 1, LAMBDA k : << f[k] >>), ks)
              IN Build(N, LAMBDA i : r[i][1])
D == Build(2 * N - 1, LAMBDA k : FI(data[k]))
Tol == FS(IF N < 4 THEN "1e-10" ELSE "1e-9")

\* every single stencil has the average of the cell, hence so has every combination
Average == kind = "data" => FClose(VDot(Weights, Rec(D, use)), D[N], Tol, Tol)

Turned(ks) ==
  { CASE k = "L" -> "R" [] k = "R" -> "L"
      [] OTHER -> IF N % 2 = 1 THEN k ELSE IF k = "CL" THEN "CR" ELSE "CL" : k \in ks }
NoDirection ==
  kind = "data" =>
    VClose(Rec(D, use),
           LET r == Rec(Build(2 * N - 1, LAMBDA k : D[2 * N - k]), Turned(use))
           IN Build(N, LAMBDA i : r[N + 1 - i]), Tol, FS("1e-7"))

\* averages of x^e over the cells of the row, the cell of number N being [0, 1]
Power(e) == LET p == Build(e + 1, LAMBDA k : IF k = e + 1 THEN F1 ELSE F0)
            IN << Build(2 * N - 1, LAMBDA k : Integral(p, FI(k - N), FI(k - N + 1))),
                  Build(N, LAMBDA i : PEval(p, Nodes[i])) >>
Exact ==
  kind = "data" => \A e \in 0..(N - 1) :
    LET w == Power(e)
        sum == VAdd(VScale(D[1], w[1]), VScale(D[2], Power(0)[1]))
        at == VAdd(VScale(D[1], w[2]), VScale(D[2], Power(0)[2]))
    IN VClose(Rec(sum, use), at, Tol, Tol (.) (F1 (+) VMaxAbs(sum)))

\* data with a single jump
Jumps(f) == { k \in 1..(2 * N - 2) : f[k] # f[k + 1] }
NoOvershoot ==
  kind = "data" /\ {"L", "R"} \subseteq use /\ Cardinality(Jumps(data)) <= 1 =>
    VClose(Rec(D, use), Build(N, LAMBDA i : D[N]), F0, FS("1e-4"))

UsedIn(x) == IF ~Lopsided THEN Used(x, nx, gap)
             ELSE LET u == Used(x, nx, gap) IN IF x = nx - gap THEN u \cup {"R"} ELSE u
Chosen ==
  kind = "row" =>
    LET u == UsedIn(c)
        inside(k) == c + First(k) >= gap /\ c + First(k) + N - 1 <= nx - 1 - gap
    IN /\ u # {} /\ u \subseteq All
       /\ UsedIn(nx - 1 - c) = Turned(u)
       \* a stencil that stays clear of the ends is used, one that reaches for them is not
       /\ (\A k \in All : inside(k) => k \in u)
       /\ (gap = N /\ nx >= 4 * N /\ c >= N /\ c < nx - N =>
             \A k \in u : c + First(k) + N - 1 >= gap /\ c + First(k) <= nx - 1 - gap)
Holds == ready =>
  /\ Average
  /\ NoDirection
  /\ Exact
  /\ NoOvershoot
  /\ Chosen
=============================================================================
