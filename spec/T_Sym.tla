------------------------------- MODULE T_Sym -------------------------------
(* Trace specification: pairs of runs that a symmetry relates *)
EXTENDS Symmetry, TraceBase

CONSTANT N

SymEv(e) ==
  LET u0 == Rows(e.u0, NV)  u1 == Rows(e.u1, NV)  w0 == Rows(e.w0, NV)  w1 == Rows(e.w1, NV)
      G(u) == IF e.embed = 0 THEN Act(e.p, e.s, e.shift, e.nX, u) ELSE Embed(e.p, e.s, e.embed, e.mX, u)
      g0 == G(u0)
      g1 == G(u1)
      \* where the predictor stops iterating may differ
      tol == (IF e.loose THEN FS("3e-4") ELSE FS("1e-11")) (+) (FI(100) (.) e.spread)
      far(c) == LET x == Coord(e.mX, c - 1)
                IN /\ Far(e.mX, x, N + 1)
                   /\ e.embed # 0 \/ Far(e.nX, Origin(e.p, e.s, e.shift, e.nX, x), N + 1)
      need == { c \in DOMAIN w1 : e.mask[c] /\ (e.far => far(c)) }
      bad == { c \in need : ~VCloseS(w1[c], g1[c], e.sc, tol) }
  IN Req("runs are of related states", e.embed # 0 \/ e.mX = NewGrid(e.p, e.nX))
     \cup Req("runs start from related states", Len(w0) = Len(g0) /\ \A c \in DOMAIN w0 : w0[c] = Seq_(g0[c]))
     \cup Req("runs do something", u1 # u0)
     \cup Req("related states stay related", FLt(FS("1e-6"), e.spread) \/ bad = {})

EventFaults(e) == CASE e.ev = "sym" -> SymEv(e)
=============================================================================
