--------------------------------- MODULE C12 ---------------------------------
(* Detecting deviating cells: every step of fit from the step before it, and   *)
(* predict / impute on the training data, on new rows, and on any batch.       *)
(* Missing cells are NaN in the record (infinite ones too).                    *)
EXTENDS UniDefs, GenKit
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cells", "shift", "scales", "intdtype", "ties"}
Base(ns, ps) == [kind : Kinds, n : ns, p : ps, miss : {0, 8, 20}, inf : {0, 3}, q : {990, 950, 900}, minc : {300, 500, 700}, hist : {"fresh", "refit"}, lab : {"range", "perm", "dup", "str"}, rep : 1..2]
Cases == << Pick(Size(230, 3000), Base({10, 13, 20, 31}, 2..4)), Pick(Size(30, 600), Base({45, 70}, 2..5)) >>

Miss(v) == ~RIsFinite(v)
(* a matrix evaluated once *)
Mat(m) == MScale(1, m)
CellLoc(s) == OneLoc(s, "bisq", R(3))
CellScale(s) == RSqrt(OneScale2(s, "huber", R("2.5"), R("0.845")))
Has(s) == Positions(s, LAMBDA v : ~Miss(v))
Both(a, b) == LET F == TLCEval([i \in 1..Len(a) |-> IF Miss(a[i]) \/ Miss(b[i]) THEN 0 ELSE 1]) IN Positions(F, LAMBDA v : v = 1)
NoSlope == [v |-> R(0), sure |-> TRUE]
(* slope through the origin: median of ratios, then least squares on the near points *)
RobSlope(x, y, cut) ==
  LET nz == Positions(x, LAMBDA v : ~REq(v, 0))
  IN IF nz = <<>> THEN NoSlope ELSE
     LET m == TLCEval(Median([i \in 1..Len(nz) |-> y[nz[i]] \oslash x[nz[i]]]))
         res == TLCEval([i \in 1..Len(x) |-> y[i] \ominus (m \otimes x[i])])
         rc == TLCEval(cut \otimes CellScale(res))
         k == Positions(res, LAMBDA v : RAbs(v) \preceq rc)
         xs == TLCEval(Sel(x, k))
         ys == TLCEval(Sel(y, k))
         tiny == R("1e-9") \otimes MaxAbs(y)
     IN [v |-> VDot(xs, ys) \oslash VDot(xs, xs),
         sure |-> k # <<>> /\ tiny \prec rc /\ \A i \in 1..Len(res) : ~RClose(RAbs(res[i]), rc, R("1e-7"), 0)]
(* correlation of two standardised columns: a robust start, then Pearson inside the ellipse of cutoff k *)
EllCorr(x, y, k) ==
  LET s == CellScale(VAdd(x, y)) d == CellScale(VSub(x, y))
      r0 == TLCEval(RMax2(R("-0.99"), RMin2(R("0.99"), (Sq(s) \ominus Sq(d)) \oslash 4)))
      d2 == TLCEval([i \in 1..Len(x) |-> ((Sq(x[i]) \oplus Sq(y[i])) \ominus ((2 \otimes r0) \otimes (x[i] \otimes y[i]))) \oslash (1 \ominus Sq(r0))])
      ix == Positions(d2, LAMBDA v : v \prec Sq(k))
      a == TLCEval(Sel(x, ix)) b == TLCEval(Sel(y, ix))
      ma == TLCEval(VShift(a, RNeg(Mean(a)))) mb == TLCEval(VShift(b, RNeg(Mean(b))))
  IN IF Len(ix) < 2 THEN R(0) ELSE VDot(ma, mb) \oslash RSqrt(VDot(ma, ma) \otimes VDot(mb, mb))
(* predictions of all cells of standardised rows U from the other observed, unflagged, correlated cells *)
PredRow(u, c, sl, dsh, minc) == [j \in 1..Len(u) |->
  LET w == TLCEval([i \in 1..Len(u) |-> IF i = j \/ Miss(u[i]) \/ RAbs(c[i][j]) \prec minc THEN R(0) ELSE RAbs(c[i][j])])
      tot == VSum(w)
  IN IF REq(tot, 0) THEN R(0) ELSE dsh[j] \otimes (VSum([i \in 1..Len(u) |-> IF REq(w[i], 0) THEN R(0) ELSE w[i] \otimes (sl[i][j] \otimes u[i])]) \oslash tot)]

Judge(r) ==
  LET ok == r.st = "ok" /\ r.usable
      o == r.out
      p == r.p
      n == Len(r.X)
      cut == RSqrt(ChiPpf(r.q, 1))
      Zof(X) == Mat([i \in 1..Len(X) |-> [j \in 1..p |-> IF Miss(X[i][j]) THEN R("NaN") ELSE (X[i][j] \ominus o.loc[j]) \oslash o.scale[j]]])
      Uof(Z) == Mat([i \in 1..Len(Z) |-> [j \in 1..p |-> IF Miss(Z[i][j]) \/ cut \prec RAbs(Z[i][j]) THEN R("NaN") ELSE Z[i][j]]])
      Z == TLCEval(Zof(r.X))
      U == TLCEval(Uof(Z))
      ZN == TLCEval(Zof(r.Xn))
      UN == TLCEval(Uof(ZN))
      Pred(u) == Mat([i \in 1..Len(u) |-> PredRow(u[i], o.cor, o.slopes, o.dsh, r.minc)])
      P == TLCEval(Pred(U))
      PN == TLCEval(Pred(UN))
      Res(z, q) == Mat([i \in 1..Len(z) |-> [j \in 1..p |-> (z[i][j] \ominus q[i][j]) \oslash o.rscale[j]]])
      RS == TLCEval(Res(Z, P))
      RN == TLCEval(Res(ZN, PN))
      Flag(v) == ~Miss(v) /\ cut \prec RAbs(v)
      Sure(v) == Miss(v) \/ ~RClose(RAbs(v), cut, R("1e-6"), 0)
      FlagsAre(f, rs) == \A i \in 1..Len(rs) : \A j \in 1..p : Sure(rs[i][j]) => (f[i][j] <=> Flag(rs[i][j]))
      CloseRes(a, b) == \A i \in 1..Len(a) : \A j \in 1..p : IF Miss(b[i][j]) THEN Miss(a[i][j]) ELSE RClose(a[i][j], b[i][j], R("1e-6"), R("1e-7"))
      (* share of the chi-square mass per row, then standardised *)
      TV(rs) == TLCEval([i \in 1..Len(rs) |-> LET h == Has(rs[i]) IN IF h = <<>> THEN R("NaN") ELSE Mean([k \in 1..Len(h) |-> ChiCdf(Sq(rs[i][h[k]]), 1)])])
      tfit == TV(o.res)
      full == \A i \in 1..n : ~Miss(tfit[i])
      tl == TLCEval(CellLoc(tfit))
      tsc == TLCEval(CellScale(tfit))
      RowFlag(t) == ~Miss(t) /\ cut \prec ((t \ominus tl) \oslash tsc)
      RowSure(t) == Miss(t) \/ ~RClose((t \ominus tl) \oslash tsc, cut, R("1e-6"), 0)
      RowsAre(f, rs) == LET t == TV(rs) IN \A i \in 1..Len(rs) : RowSure(t[i]) => (f[i] <=> RowFlag(t[i]))
      ImpAre(X, imp, flag, pred, all) == \A i \in 1..Len(X) : \A j \in 1..p :
          IF Miss(X[i][j]) \/ (all /\ flag[i][j]) THEN RClose(imp[i][j], (pred[i][j] \otimes o.scale[j]) \oplus o.loc[j], R("1e-6"), R("5.1e-4"))
          ELSE REq(imp[i][j], X[i][j])
      pairs == {q \in (1..p) \X (1..p) : q[1] # q[2]}
      RawP == Mat([i \in 1..n |-> PredRow(U[i], o.cor, o.slopes, [j \in 1..p |-> 1], r.minc)])
  IN << Cl("Returns", TRUE, r.st = "ok"),
        Cl("Location", ok, \A j \in 1..p : LET x == Filter(Col(r.X, j), LAMBDA v : ~Miss(v)) IN RClose(o.loc[j], CellLoc(x), R("1e-9"), R("1e-9") \otimes o.scale[j])),
        Cl("Scale", ok, \A j \in 1..p : LET x == Filter(Col(r.X, j), LAMBDA v : ~Miss(v)) IN RClose(o.scale[j], CellScale(x), R("1e-8"), 0)),
        Cl("CorrelationShape", ok, \A i \in 1..p : REq(o.cor[i][i], 1) /\ \A j \in 1..p : RClose(o.cor[i][j], o.cor[j][i], 0, R("1e-12")) /\ RAbs(o.cor[i][j]) \preceq R("1.000000001")),
        Cl("CorrelationInsideEllipse", ok, \A q \in {w \in pairs : w[1] < w[2]} :
            LET ix == Both(Col(U, q[1]), Col(U, q[2])) x == TLCEval(Sel(Col(U, q[1]), ix)) y == TLCEval(Sel(Col(U, q[2]), ix))
            IN Len(ix) < 5 \/ RClose(o.cor[q[1]][q[2]], EllCorr(x, y, cut), R("1e-6"), R("1e-7")) \/ RClose(o.cor[q[1]][q[2]], EllCorr(x, y, RSqrt(ChiPpf(r.q, 2))), R("1e-6"), R("1e-7"))),
        Cl("SlopesExactlyForCorrelated", ok, \A q \in pairs : (~RClose(RAbs(o.cor[q[1]][q[2]]), r.minc, R("1e-9"), 0)) => (Miss(o.slopes[q[1]][q[2]]) <=> RAbs(o.cor[q[1]][q[2]]) \prec r.minc)),
        Cl("RobustSlopes", ok, \A q \in pairs : Miss(o.slopes[q[1]][q[2]]) \/
            (LET ix == Both(Col(U, q[1]), Col(U, q[2])) b == TLCEval(RobSlope(Sel(Col(U, q[1]), ix), Sel(Col(U, q[2]), ix), cut))
             IN b.sure => RClose(o.slopes[q[1]][q[2]], b.v, R("1e-6"), R("1e-8")))),
        Cl("Deshrinkage", ok, \A j \in 1..p : LET ix == Has(Col(Z, j)) b == TLCEval(RobSlope(Sel(Col(RawP, j), ix), Sel(Col(Z, j), ix), cut))
                                              IN b.sure => RClose(o.dsh[j], b.v, R("1e-6"), R("1e-8"))),
        Cl("Predictions", ok, MClose(o.pred, P, R("1e-7"), R("1e-8"))),
        Cl("RescaledPredictions", ok, \A j \in 1..p : VClose(Col(o.rpred, j), [i \in 1..n |-> (P[i][j] \otimes o.scale[j]) \oplus o.loc[j]], R("1e-7"), R("1e-8") \otimes (o.scale[j] \oplus RAbs(o.loc[j])))),
        Cl("ResidualScale", ok, \A j \in 1..p : LET ix == Has(Col(Z, j)) e == [k \in 1..Len(ix) |-> Z[ix[k]][j] \ominus P[ix[k]][j]] IN RClose(o.rscale[j], CellScale(e), R("1e-6"), R("1e-9"))),
        Cl("StandardisedResiduals", ok /\ r.okres, CloseRes(o.res, RS)),
        Cl("CellFlags", ok /\ r.okres, FlagsAre(o.cells, o.res)),
        Cl("MissingNeverFlagged", ok, \A i \in 1..n : \A j \in 1..p : Miss(r.X[i][j]) => ~o.cells[i][j]),
        Cl("RowFlags", ok /\ r.okres /\ full /\ R("1e-9") \prec tsc, RowsAre(o.rows, o.res)),
        Cl("PredictAgreesWithFit", ok, o.pcells = o.cells /\ MClose(o.pres, o.res, R("1e-10"), R("1e-12")) /\ o.prows = o.rows),
        Cl("PredictNewRows", ok /\ r.okres, CloseRes(o.nres, RN) /\ FlagsAre(o.ncells, o.nres)),
        Cl("PredictNewRowFlags", ok /\ r.okres /\ full /\ R("1e-9") \prec tsc, RowsAre(o.nrows, o.nres)),
        Cl("RowsIndependent", ok, o.batchsame),
        Cl("ImputeOutliersAndMissing", ok, ImpAre(r.Xn, o.imp, o.ncells, PN, TRUE)),
        Cl("ImputeMissingOnly", ok, ImpAre(r.Xn, o.impm, o.ncells, PN, FALSE)),
        Cl("ImputedFinite", ok, MFinite(o.imp) /\ MFinite(o.impm)),
        Cl("LabelsKept", ok, o.labels) >>
=============================================================================
