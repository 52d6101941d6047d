--------------------------------- MODULE C18 ---------------------------------
(* Equivariance of the covariance estimators: fit on X and on its transform    *)
(* X' = rows permuted, columns permuted (perm), times k, plus v (or X A').     *)
EXTENDS Stats, GenKit
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cluster30", "cells"}
CellKinds == {"normal", "indep", "corr", "shift"}
Ns == {10, 15, 20, 33, 60, 120}
Fast == {"fast", "fastraw", "fastfew"}
Det == {"det", "detraw", "ogk", "ogkrw", "wrap", "kendall"}
Cases == << Pick(Size(240, 2500), [est : Fast \cup Det, kind : Kinds, n : Ns, p : 2..6, op : {"shift", "scale", "cols", "all", "units"}, rep : 1..2]),
            Pick(Size(30, 250), [est : {"fastfew"}, kind : Kinds, n : {60, 120}, p : 2..4, op : {"units"}, rep : 1..3]),
            Pick(Size(60, 500), [est : Fast \cup Det, kind : {"normal", "indep", "corr", "skew", "cells"}, n : Ns, p : 2..4, op : {"far"}, rep : 1..2]),
            Pick(Size(10, 60), [est : {"det", "detraw"}, kind : {"normal", "corr", "cluster30", "heavy"}, n : {1000}, p : {2, 3}, op : {"shift", "all", "units", "rows"}, rep : 1..2]),
            Pick(Size(80, 800), [est : Det, kind : Kinds, n : Ns, p : 2..6, op : {"rows"}, rep : 1..2]),
            Pick(Size(80, 800), [est : Fast, kind : Kinds, n : Ns, p : 2..6, op : {"affine"}, rep : 1..2]),
            Pick(Size(40, 300), [est : {"cell"}, kind : CellKinds, n : {50, 80}, p : 2..4, op : {"shift", "scale", "cols", "rows"}, rep : 1..2]) >>
Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      p == r.p
      A == r.A
      want == TLCEval(MMul(A, MMul(o.cov1, MT(A))))
      wloc == VAdd(MV(A, o.loc1), r.v)
      d == TLCEval([j \in 1..p |-> RSqrt(want[j][j])])
      Normed(B) == [i \in 1..p |-> [j \in 1..p |-> (B[i][j] \oslash d[i]) \oslash d[j]]]
      tol == IF r.cell THEN R("2e-3") ELSE R("1e-5")
      size == TLCEval([j \in 1..p |-> d[j] \oplus (R("1e-3") \otimes RAbs(r.v[j]))])
  IN << Cl("Returns", TRUE, ok),
        Cl("CellWeightsKept", ok /\ r.cell, 4 * r.off <= r.n * p),
        Cl("CovarianceEquivariant", ok /\ ~r.tie, MClose(Normed(o.cov2), Normed(want), 0, tol)),
        Cl("LocationEquivariant", ok /\ ~r.tie, VClose([j \in 1..p |-> o.loc2[j] \oslash size[j]], [j \in 1..p |-> wloc[j] \oslash size[j]], 0, tol)) >>
=============================================================================
