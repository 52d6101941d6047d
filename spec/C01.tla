--------------------------------- MODULE C01 ---------------------------------
(* The size of the h-subset as a function of (n, p, alpha).                    *)
EXTENDS Stats, Coverage, GenKit

Alphas == ({"none"} \X {0}) \cup ({"float"} \X {500, 501, 510, 550, 600, 667, 750, 800, 875, 900, 990, 999, 1000})
          \cup ({"int"} \X (0..9)) \cup ({"badint"} \X (0..5)) \cup ({"badfloat"} \X (0..7))
Ns == {8, 9, 10, 11, 12, 13, 15, 16, 20, 21, 24, 30, 31, 40, 47, 60}
Kinds == {"normal", "corr", "heavy", "rows15", "scales"}
Mk(e, k) == [est : {e}, kind : IF e = "uni" THEN {"normal", "skew", "ints", "ties"} ELSE IF e = "cell" THEN {"normal", "indep", "corr", "cells"} ELSE Kinds, n : Ns, p : IF e = "lts" THEN 1..4 ELSE 2..4, part : k, aa : Alphas]
Flat(S) == {[est |-> c.est, kind |-> c.kind, n |-> c.n, p |-> c.p, part |-> c.part, at |-> c.aa[1], a |-> c.aa[2]] : c \in S}
Cells == [est : {"cell"}, kind : {"normal", "indep", "corr", "cells"}, n : Ns, p : 2..4, part : {0},
          aa : ({"float"} \X {500, 510, 600, 667, 750, 800, 875}) \cup ({"badfloat"} \X (0..3))]
(* the bound is active: more cells of a column are at odds with the others than may be dropped *)
Tight == [est : {"cell"}, kind : {"corrcells"}, n : Ns, p : 3..4, part : {0}, aa : {"float"} \X {801, 823, 850, 875, 893, 910, 934}]
(* large data are partitioned automatically *)
Large == [est : {"fast"}, kind : {"normal"}, n : {601, 720, 1000}, p : {2, 3}, part : {0, 3}, aa : Alphas]
Cases == << Flat(Pick(Size(250, 2500), Mk("fast", 0..3))), Flat(Pick(Size(200, 1500), Mk("det", {0}))),
            Flat(Pick(Size(200, 1500), Mk("lts", {0, 1}))), Flat(Pick(Size(300, 2500), Mk("uni", {0}))),
            Flat(Pick(Size(60, 400), Cells)), Flat(Pick(Size(40, 300), Tight)), Flat(Pick(Size(20, 100), Large)) >>

Good(r) == IF r.est \in {"lts", "cell"} THEN r.at = "float" ELSE r.at \in {"none", "int", "float"}
(* LTS: alpha is a proportion of n, no admissible integer *)
H(r) == IF r.est = "uni" THEN HOf(r.at, r.a, r.n, HMinUni(r.n)) ELSE HOf(r.at, r.a, r.n, HMinMulti(r.n, r.p))
(* alpha = 1 or alpha = n is the classical estimator *)
Full(r) == (r.at = "float" /\ r.a = 1000) \/ (r.at = "int" /\ r.a = r.n)
CellH(r) == LET al == RMax2(AlphaFloat(r.a), (r.n \div 2 + 1) \oslash r.n) IN RRound(al \otimes r.n, 0)

Judge(r) ==
  LET ran == r.st = "ok"
      o == r.out
      good == Good(r)
      ok == ran /\ good /\ o.status = "ok"
      C == Cov(r.X)
  IN << Cl("Returns", TRUE, ran),
        Cl("InadmissibleAlphaIsRejected", ran /\ ~good /\ r.at \in {"badint", "badfloat"}, o.status = "ValueError"),
        Cl("AdmissibleAlphaIsAccepted", ran /\ good /\ r.est # "cell", o.status = "ok"),
        Cl("DocumentedSize", ok /\ r.est \in {"fast", "det", "lts"} /\ ~o.classical, Len(o.ix) = H(r)),
        Cl("DocumentedSizeUnivariate", ok /\ r.est = "uni", o.h = H(r)),
        Cl("DistinctRowNumbers", ok /\ r.est \in {"fast", "det", "lts"} /\ ~o.classical,
             Cardinality({o.ix[i] : i \in 1..Len(o.ix)}) = Len(o.ix)),
        Cl("MajorityNotMoreThanAll", ok /\ r.est \in {"fast", "det", "lts"} /\ ~o.classical, 2 * Len(o.ix) > r.n /\ Len(o.ix) <= r.n),
        Cl("FullCoverageIsClassical", ok /\ r.est \in {"fast", "det"} /\ Full(r),
             o.classical => /\ VClose(o.loc, ColMeans(r.X), R("1e-9"), R("1e-9") \otimes MaxAbsM(r.X))
                            /\ MClose(o.cov, C, R("1e-8"), R("1e-9") \otimes MaxAbsM(C))),
        Cl("CellsKeptPerColumn", ok /\ r.est = "cell", o.fitted /\ \A j \in 1..r.p : o.cols[j] <= r.n /\ o.cols[j] \succeq CellH(r)) >>
=============================================================================
