------------------------------ MODULE T_Exact ------------------------------
(* Trace specification: runs against exact solutions *)
EXTENDS Exact, Grid, TraceBase

CellsOf(u) == Rows(u, NV)
Ones == Build(LSET, LAMBDA k : FI(-1))
Mid(nX, c) == LET at == Coords(nX, c - 1) IN Build(Len(nX), LAMBDA d : (FI(at[d]) (+) Half) (/) FI(nX[d]))
Widths(nX) == Build(Len(nX), LAMBDA d : FQ(1, nX[d]))
Vars == IF THERMAL THEN 17 ELSE 14

\* mean errors of the variables, in their units
MeanError(us, ws, sc) ==
  LET n == Len(us)
      tot == VSumOf(LAMBDA c : Build(Vars, LAMBDA k : FAbs(us[c][k] (-) ws[c][k])), 1, n)
  IN Build(Vars, LAMBDA k : tot[k] (/) (FI(n) (.) sc[k]))

\* errors fall as the grid is refined, to a small part of the pattern
Falls(errs, rate, last) ==
  Req("errors fall as the grid is refined", FLe(errs[Len(errs)], rate (.) errs[1]))
  \cup Req("the finest grid comes close", FLe(errs[Len(errs)], last))

Carried_(e) ==
  LET exact(g, t) == Build(Prod(g.nX), LAMBDA c : Average(e.m, e.f, Mid(g.nX, c), Widths(g.nX), t, Ones))
      err(g) == VMaxAbs(MeanError(CellsOf(g.u1), exact(g, e.t), e.sc))
      start == \A i \in DOMAIN e.runs : LET g == e.runs[i] IN
                 FLe(VMaxAbs(MeanError(CellsOf(g.u0), exact(g, F0), e.sc)), FS("1e-9"))
      errs == Build(Len(e.runs), LAMBDA i : err(e.runs[i]))
  IN IF ~start THEN {"the run starts from another pattern"}
     ELSE Falls(errs, e.rate, e.last)

EventFaults(e) ==
  CASE e.ev = "carried" -> Carried_(e)
=============================================================================
