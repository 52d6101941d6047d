--------------------------------- MODULE C08 ---------------------------------
(* Contaminated samples whose clean part is standard normal in known           *)
(* coordinates, at every pattern and magnitude, and the bounds within which    *)
(* each estimate must stay. Bounds are about twice the largest bias that the   *)
(* estimators show at these fractions, and far below the magnitudes.           *)
EXTENDS Stats, GenKit
Mags == {10, 100, 10000, 1000000}
UniC == {"umcd", "tau", "qn", "huber", "cellm", "wrap1", "scaler", "scalerq"}
RowC == {"fast", "fastraw", "det", "detraw", "ogk", "ogkrw"}
RegC == {"lts", "ltsraw", "s", "mm"}
Cases == << Pick(Size(700, 9000), [what : {"uni"}, cls : UniC, n : {20, 33, 60, 101}, frac : {10, 25, 40}, pat : {"point", "cluster", "two", "one"}, k : Mags, unit : {"0.001", "1", "1000"}, side : {-1, 1}, rep : 1..3]),
            Pick(Size(170, 1500), [what : {"rows"}, cls : RowC, n : {30, 60, 100}, p : {2, 3, 5}, frac : {10, 25}, pat : {"point", "cluster", "scatter", "coord", "radial"}, k : Mags, rep : 1..3]),
            Pick(Size(60, 400), [what : {"rows"}, cls : {"kendall"}, n : {30, 60}, p : {2, 3}, frac : {10, 25}, pat : {"point", "cluster", "scatter", "coord", "radial"}, k : Mags, rep : 1..3]),
            Pick(Size(60, 500), [what : {"rows"}, cls : {"sd"}, n : {30, 60, 100}, p : {2, 3, 5}, frac : {10, 25}, pat : {"point", "cluster", "scatter", "coord", "radial"}, k : Mags, rep : 1..3]),
            Pick(Size(80, 700), [what : {"reg"}, cls : RegC, n : {30, 60, 100}, p : {1, 2, 4}, frac : {10, 25}, pat : {"vert1", "vert2", "vpoint", "badlev", "badlevpoint", "levscatter", "mix"}, k : Mags]),
            Pick(Size(120, 1000), [what : {"pca"}, cls : {"robpca", "loc"}, n : {40, 60, 100}, p : {3, 5, 8}, frac : {10, 25}, pat : {"point", "cluster", "scatter", "coord", "radial"}, k : Mags]),
            Pick(Size(110, 900), [what : {"cells"}, cls : {"cell", "wrap", "ddc"}, n : {50, 100}, p : {2, 3, 5}, frac : {5, 10}, pat : {"same", "one", "two"}, k : Mags, rho : {0, 5, 8}]) >>
LocBound(cls) == CASE cls \in {"umcd", "wrap1", "scaler"} -> R("2") [] cls \in {"tau", "cellm"} -> R("3") [] cls \in {"qn", "scalerq"} -> R("4.5") [] OTHER -> R("9")
ScaleBound(cls) == CASE cls \in {"umcd", "wrap1", "scaler"} -> R("8") [] cls = "cellm" -> R("18") [] OTHER -> R("14")
RowLoc(r) == IF r.case.k = 10 THEN R("9") ELSE R("5")
RowVar(r) == IF r.case.k = 10 THEN R("150") ELSE IF r.case.cls \in {"ogk", "kendall"} THEN R("100") ELSE R("12")
Judge(r) ==
  LET ok == r.st = "ok"
      w == IF ok THEN r.case.what ELSE "none"
      uni == w = "uni" rows == w = "rows" reg == w = "reg" pca == w = "pca" cells == w = "cells"
      far == ok /\ r.case.k >= 100
      cls == IF ok THEN r.case.cls ELSE ""
      Nrm(v) == RSqrt(VDot(v, v))
      est == rows /\ cls # "sd"
      std == IF est THEN MV(r.W, VSub(r.loc, r.mu)) ELSE <<>>
      WC == IF est THEN TLCEval(MMul(MMul(r.W, r.cov), MT(r.W))) ELSE <<>>
      ev == IF est /\ cls # "kendall" THEN TLCEval(EigVals(WC)) ELSE IF est THEN [j \in 1..Len(r.cov) |-> r.cov[j][j] \oslash r.tcov[j][j]] ELSE <<>>
      clean == IF rows \/ pca THEN SetToSeq({i \in 1..(IF pca THEN Len(r.od) ELSE Len(r.dist)) : ~\E j \in 1..Len(r.out) : r.out[j] = i}) ELSE <<>>
      point == ok /\ r.case.pat \in {"vpoint", "badlevpoint"}
  IN << Cl("Returns", TRUE, ok),
        Cl("UniLocation", uni, RAbs(r.loc \ominus r.centre) \preceq (LocBound(cls) \otimes r.sd)),
        Cl("UniScale", uni, (R("0.3") \otimes r.sd) \preceq r.scale /\ r.scale \preceq (ScaleBound(cls) \otimes r.sd)),
        Cl("RowsLocation", est, Nrm(std) \preceq RowLoc(r)),
        Cl("RowsCovarianceBounded", est, \A j \in 1..Len(ev) : ev[j] \preceq RowVar(r)),
        Cl("RowsCovarianceNotCollapsed", est /\ (far \/ r.case.pat # "point"), \A j \in 1..Len(ev) : (IF r.case.k = 10 THEN R("0.002") ELSE R("0.005")) \preceq ev[j]),
        Cl("OutlyingRowsFarthest", rows /\ far /\ cls # "kendall", MaxOf(Sel(r.dist, clean)) \prec MinOf(Sel(r.dist, r.out))),
        Cl("CleanOutlyingnessBounded", rows /\ cls = "sd", MaxOf(Sel(r.dist, clean)) \preceq R("30")),
        Cl("Slopes", reg, \A j \in 1..Len(r.coef) : RAbs(r.coef[j] \ominus r.beta[j]) \preceq R("15")),
        Cl("SlopesFar", reg /\ far /\ ~point, \A j \in 1..Len(r.coef) : RAbs(r.coef[j] \ominus r.beta[j]) \preceq R("4")),
        Cl("RegressionScale", reg, R("0.1") \preceq r.scale /\ r.scale \preceq R("5")),
        Cl("OutlyingResidualsLargest", reg /\ far /\ ~point, LET c == SetToSeq({i \in 1..Len(r.absres) : ~\E j \in 1..Len(r.out) : r.out[j] = i}) IN MaxOf(Sel(r.absres, c)) \prec MinOf(Sel(r.absres, r.out))),
        Cl("PcaCentre", pca, Nrm(r.cstd) \preceq (IF cls = "robpca" THEN R("8") ELSE R("7"))),
        Cl("PcaOutliersStandOut", pca /\ far /\ (cls = "robpca" \/ r.case.frac = 10), LET a == MaxOf(Sel(r.od, clean)) b == MaxOf(Sel(r.scd, clean)) IN \A q \in 1..Len(r.out) : a \prec r.od[r.out[q]] \/ b \prec r.scd[r.out[q]]),
        Cl("PcaDirections", pca /\ (cls = "robpca" \/ r.case.frac = 10), R(IF cls = "loc" THEN "0.6" ELSE IF r.case.k = 10 THEN "0.4" ELSE "0.7") \preceq r.cosmin),
        Cl("PcaVariances", pca, \A j \in 1..Len(r.lam) : R("0.01") \preceq r.lam[j] /\ r.lam[j] \preceq (IF r.case.k = 10 THEN R("60") ELSE R("20"))),
        Cl("CellsLocation", cells, \A j \in 1..Len(r.loc) : RAbs(r.loc[j] \ominus r.mu[j]) \preceq (r.sd[j] \otimes R("1.2"))),
        Cl("CellsScale", cells, \A j \in 1..Len(r.var) : (Sq(r.sd[j]) \otimes R("0.05")) \preceq r.var[j] /\ r.var[j] \preceq (Sq(r.sd[j]) \otimes R("9"))),
        Cl("CellsCorrelation", cells, \A i \in 1..Len(r.cor) : \A j \in 1..Len(r.cor) : RAbs(r.cor[i][j] \ominus (IF i = j THEN R("1") ELSE r.rho)) \preceq (IF r.case.n = 50 THEN R("1.1") ELSE R("0.8"))),
        Cl("CellsFlagged", cells /\ cls # "wrap" /\ far, \A i \in 1..Len(r.hit) : r.hit[i]),
        Cl("CellsNotAllFlagged", cells /\ cls # "wrap", r.fp \preceq R("0.2")) >>
=============================================================================
