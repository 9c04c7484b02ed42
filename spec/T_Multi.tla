------------------------------ MODULE T_Multi ------------------------------
(* Trace specification: level sets, ghost cells by material, merging *)
EXTENDS Multi, TraceBase

Rest(Q) == SubSeq(Q, 1, NV - LSET)
Column(u, nX, i) == Build(Prod(nX), LAMBDA k : CellOf(u, k - 1)[NV - LSET + i])

Renorm(e) ==
  UNION { DistanceFaults(e.nX, e.dX, Column(e.u0, e.nX, i), Column(e.u1, e.nX, i)) : i \in 1..LSET }
  \cup Req("renormalising changed other variables",
           \A k \in Cells(e.nX) : SameBits(Rest(CellOf(e.u1, k)), Rest(CellOf(e.u0, k))))

Distance_(e) == DistanceFaults(e.nX, e.dX, e.phi, e.dist)

CloseState(a, c) == \A k \in DOMAIN c : FClose(a[k], c[k], FS("1e-8"), FS("1e-10"))
                                       \/ (FIsNaN(a[k]) /\ FIsNaN(c[k]))

GhostFaults(e, m) ==    \* of material m, counted from 0
  LET nX == e.nX
      nmat == Len(e.mats)
      grid == e.grids[m + 1]
      mask == e.masks[m + 1]
      p == Seq_(e.phis[m + 1])
      base == Indicator(e.u1, nX, m, nmat)
      grad == Gradient(nX, e.dX, p)
      owner(k) == MaterialIndex(CellOf(e.u1, k))
      lay == Layers(nX, p, LayerCount)
      iso == { k \in Cells(nX) : Isolated(nX, p, k) }
      layerOf == [k \in Cells(nX) |-> IF \E i \in 1..Len(lay) : k \in lay[i]
                                      THEN CHOOSE i \in 1..Len(lay) : k \in lay[i] ELSE 0]
      stars == e.stars[m + 1]
      StarOk(k) ==
        LET P == Probes(nX, e.dX, p, grad, owner, m, k)
        IN \E s \in { stars[i] : i \in DOMAIN stars } :
             /\ s.cell = k
             /\ \E q \in P : q[1] = s.l /\ q[2] = s.r /\ VClose(q[3], s.n, F0, FS("1e-9"))
             /\ CloseState(Rest(CellOf(grid, k)), Rest(s.out))
  IN IF e.mats[m + 1].EOS = VACUUM
     THEN Req("a vacuum's mask is empty", \A k \in Cells(nX) : At(mask, k) = 0)
     ELSE
     (IF nmat > 2 THEN DistanceFaults(nX, e.dX, base, p)
      ELSE Req("indicator of a material", SameBits(p, base)))
     \cup Req("marked cells", \A k \in Cells(nX) : (At(mask, k) = 1) = Marked(nX, p, k))
     \cup Req("level sets of a material's grid",
              \A k \in Cells(nX) : SameBits(LevelSets(CellOf(grid, k)), LevelSets(CellOf(e.u1, k))))
     \cup Req("own cell changed",
              \A k \in Cells(nX) : Solid(nX, p, k) /\ owner(k) = m
                                   => SameBits(Rest(CellOf(grid, k)), Rest(CellOf(e.u1, k))))
     \cup Req("state of the first layer", \A k \in lay[1] : StarOk(k))
     \cup UNION { Req("state of a further layer",
                      \A k \in lay[i] : \E j \in Sources(nX, grad, LAMBDA c : layerOf[c], LAMBDA c : c \in iso, k, i) :
                        j \in iso \/ SameBits(Rest(CellOf(grid, k)), Rest(CellOf(grid, j))))
                : i \in 2..Len(lay) }

Ghost(e) ==
  Req("ghost filling changed other variables",
      \A k \in Cells(e.nX) : SameBits(Rest(CellOf(e.u1, k)), Rest(CellOf(e.u0, k))))
  \cup UNION { DistanceFaults(e.nX, e.dX, Column(e.u0, e.nX, i), Column(e.u1, e.nX, i)) : i \in 1..LSET }
  \cup UNION { GhostFaults(e, m) : m \in 0..(Len(e.mats) - 1) }

Merge(e) ==
  Req("merged cell",
      \A k \in Cells(e.nX) :
        LET w == Merged(e.u0, e.grids, e.masks, LAMBDA o : e.mats[o + 1].EOS = VACUUM, k)
            g == CellOf(e.u1, k)
        IN /\ SameBits(Rest(g), Rest(w))
           /\ VClose(LevelSets(g), LevelSets(w), FS("1e-14"), FS("1e-300")))

\* marks of every pattern of signs
Pattern(e) ==
  Req("marked cells", \A k \in Cells(e.nX) : (At(e.mask, k) = 1) = Marked(e.nX, e.phi, k))

EventFaults(e) ==
  CASE e.ev = "renorm" -> Renorm(e)
    [] e.ev = "distance" -> Distance_(e)
    [] e.ev = "ghost" -> Ghost(e)
    [] e.ev = "merge" -> Merge(e)
    [] e.ev = "pattern" -> Pattern(e)
=============================================================================
