--------------------------------- MODULE C28 ---------------------------------
(* What each display shows, as a function of the fitted model and the data.    *)
EXTENDS Stats, GenKit
Covs == {"fast", "det", "ogk", "wrap", "kendall", "cell"}
Regs == {"lts", "s", "snoint", "mm"}
Pcas == {"robpca", "robpca2", "loc", "loc2"}
Kinds == {"normal", "rows15", "corr", "heavy", "cells"}
Plots == {"indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"}
Cases == << Pick(Size(60, 500), [what : {"dd"}, cls : Covs, kind : Kinds, n : {30, 60}, p : {2, 3, 5}, q : {500, 900, 975, 999}, def : BOOLEAN]),
            Pick(Size(100, 700), [what : {"regmap"}, cls : Regs, kind : Kinds, n : {30, 50}, p : 1..4, rs : BOOLEAN, rd : BOOLEAN, thr : {10, 25, 40}, q : {900, 975, 990}, data : {"train", "new"}, cont : {"array", "frame"}]),
            Pick(Size(80, 700), [what : {"pcamap"}, cls : Pcas, kind : Kinds, n : {40, 70}, p : {3, 5, 8}, data : {"train", "new"}, cont : {"array", "frame"}]),
            Pick(Size(70, 600), [what : {"cell"}, plot : Plots, kind : {"cells", "normal", "corr"}, n : {50}, p : {2, 4}, q : {900, 990}, aq : {0, 500, 950, 999}, names : BOOLEAN, nan : BOOLEAN, later : BOOLEAN]),
            Pick(Size(90, 700), [what : {"cellmap"}, kind : {"cells", "corr"}, n : {20, 40}, p : {3, 5}, rz : {"no", "tuple", "index", "revindex"}, cz : {"no", "tuple", "index"}, ann : BOOLEAN, clip : {0, 1, 2, 3, 5}, data : {"train", "new"}, nan : BOOLEAN]) >>
T == R("1e-9")
Tp == R("1e-6")
Sorted(s) == VSort(s)
Std(s) == RSqrt(VarPop(s))
Masked(a, b) == [i \in 1..Len(a) |-> IF RIsNaN(a[i]) \/ RIsNaN(b[i]) THEN R("NaN") ELSE a[i]]     \* a point with a missing coordinate is not drawn
OdVec(X, mu, P, sc) == [i \in 1..Len(X) |-> RSqrt(VSum([j \in 1..Len(mu) |-> Sq((X[i][j] \ominus mu[j]) \ominus VDot(sc[i], P[j]))]))]
Judge(r) ==
  LET ok == r.st = "ok"
      w == IF ok THEN r.case.what ELSE "none"
      dd == w = "dd" rm == w = "regmap" pm == w = "pcamap" ce == w = "cell" hm == w = "cellmap"
      pts == dd \/ rm \/ pm \/ ce
      xs == IF pts THEN r.xs ELSE <<>>
      ys == IF pts THEN r.ys ELSE <<>>
      n == IF pts THEN r.n ELSE 0
      chi(q, df) == RSqrt(ChiPpf(q, df))
      Same(a, b) == VClose(Sorted(a), Sorted(b), T, R("1e-9"))
      res == IF rm THEN TLCEval([i \in 1..n |-> r.y[i] \ominus r.pred[i]]) ELSE <<>>
      stdz == IF rm THEN TLCEval(LET s == IF r.case.rs THEN MADN(res) ELSE Std(res) IN [i \in 1..n |-> res[i] \oslash s]) ELSE <<>>
      sc == IF pm THEN TLCEval([i \in 1..n |-> [k \in 1..Len(r.ev) |-> VSum([j \in 1..Len(r.mu) |-> (r.x[i][j] \ominus r.mu[j]) \otimes r.P[j][k]])]]) ELSE <<>>
      sd == IF pm THEN TLCEval([i \in 1..n |-> RSqrt(VSum([k \in 1..Len(r.ev) |-> Sq(sc[i][k]) \oslash r.ev[k]]))]) ELSE <<>>
      od == IF pm THEN TLCEval(OdVec(r.x, r.mu, r.P, sc)) ELSE <<>>
      odscale == IF pm THEN MaxOf([i \in 1..n |-> RSqrt(VSum([j \in 1..Len(r.mu) |-> Sq(r.x[i][j] \ominus r.mu[j])]))]) ELSE 1
      plot == IF ce THEN r.case.plot ELSE ""
      cut == IF ce THEN chi(r.q, 1) ELSE 0
      acut == IF ce THEN (IF plot = "bivariate" THEN chi(r.aq, 2) ELSE chi(r.aq, 1)) ELSE 0
      band(c, t) == << t.loc \ominus (c \otimes t.scale), t.loc \oplus (c \otimes t.scale) >>
      pm2(c) == << R("0") \ominus c, c >>
      hline(c) == IF plot \in {"variable_vs_predictions", "bivariate"} THEN band(c, r.ty) ELSE pm2(c)
      vline(c) == IF plot = "indexplot" THEN <<>> ELSE band(c, r.tx)
      expx == IF plot = "indexplot" THEN [i \in 1..n |-> i - 1] ELSE IF plot \in {"residuals_vs_variable", "bivariate"} THEN r.X1 ELSE r.pred
      expy == IF plot = "bivariate" THEN r.X2 ELSE IF plot = "variable_vs_predictions" THEN r.X1 ELSE r.res
      d2 == IF plot = "bivariate" THEN TLCEval(SqDists([i \in 1..n |-> <<r.X1[i], r.X2[i]>>], r.mu, r.cov)) ELSE <<>>
      \* 1: must be annotated, 0: must not, 2: too close to call
      beyond(v, t) == IF RIsNaN(v) THEN 0 ELSE LET a == v \ominus t[2] b == t[1] \ominus v m == RMax2(a, b) IN
                        IF RAbs(m) \preceq (Tp \otimes (R("1") \oplus RAbs(v))) THEN 2 ELSE IF R("0") \prec m THEN 1 ELSE 0
      flag(i) == IF plot = "bivariate" THEN (IF RIsNaN(d2[i]) THEN 0 ELSE LET a == RSqrt(d2[i]) \ominus acut IN IF RAbs(a) \preceq Tp THEN 2 ELSE IF R("0") \prec a THEN 1 ELSE 0)
                 ELSE LET h == beyond(expy[i], hline(acut)) v == IF plot = "indexplot" THEN 0 ELSE beyond(expx[i], vline(acut))
                      IN IF h = 1 \/ v = 1 THEN 1 ELSE IF h = 2 \/ v = 2 THEN 2 ELSE 0
      zr == IF hm THEN Len(r.rows) ELSE 0
      zc == IF hm THEN Len(r.cols) ELSE 0
  IN << Cl("Returns", TRUE, ok),
        Cl("OnePointPerObservation", pts, Len(xs) = n /\ Len(ys) = n),
        Cl("ModelUnchanged", ok, r.before = r.after),
        Cl("DataUnchanged", ok, r.databefore = r.dataafter),
        Cl("FigureSize", ok /\ r.fig # <<>>, VClose(r.fig, r.wantfig, T, T)),
        \* distance-distance plot
        Cl("DistDistPoints", dd, VClose(xs, r.maha, T, T) /\ VClose(ys, r.rob, T, T)),
        Cl("RobustDistancesDefinition", dd, LET d == TLCEval(SqDists(r.x, r.mu, r.cov)) IN VClose(ys, [i \in 1..n |-> RSqrt(d[i])], R("1e-6"), R("1e-8"))),
        Cl("ClassicalDistancesDefinition", dd, LET d == TLCEval(SqDists(r.x, ColMeans(r.x), Cov(r.x))) IN VClose(xs, [i \in 1..n |-> RSqrt(d[i])], R("1e-6"), R("1e-8"))),
        Cl("DistDistLines", dd, Same(r.hl, <<chi(r.q, r.p)>>) /\ Same(r.vl, <<chi(r.q, r.p)>>)),
        Cl("DistDistDiagonal", dd, r.diag = 1),
        \* regression outlier map
        Cl("RegResiduals", rm, VClose(r.ret.res, res, R("1e-7"), R("1e-8") \otimes MaxAbs(r.y))),
        Cl("RegStandardized", rm, VClose(ys, stdz, R("1e-6"), R("1e-7")) /\ VClose(r.ret.std, ys, T, T)),
        Cl("RegDistancesReturned", rm, VClose(r.ret.dist, xs, T, T)),
        Cl("RegClassicalDistances", rm /\ ~r.case.rd, LET d == TLCEval(SqDists(r.x, ColMeans(r.x), Cov(r.x))) IN VClose(xs, [i \in 1..n |-> RSqrt(d[i])], R("1e-6"), R("1e-8"))),
        Cl("RegRobustDistances", rm /\ r.case.rd /\ r.lev # <<>>, \A k \in 1..Len(r.lev) : (2 \otimes chi(R("0.99"), r.p)) \prec xs[r.lev[k]]),
        Cl("RegLines", rm, Same(r.hl, <<r.thr, R("0") \ominus r.thr>>) /\ Same(r.vl, <<chi(r.q, r.p)>>)),
        Cl("RegCutoffsReturned", rm, VClose(<<r.ret.thr, r.ret.lev>>, <<r.thr, chi(r.q, r.p)>>, T, T)),
        \* PCA outlier map
        Cl("ScoreDistances", pm, VClose(xs, sd, R("1e-6"), R("1e-7"))),
        Cl("OrthogonalDistances", pm, VClose(ys, od, R("1e-6"), R("1e-7") \otimes odscale)),
        Cl("PcaLines", pm, Same(r.vl, <<chi(R("0.975"), Len(r.ev))>>) /\ VClose(r.hl, <<r.odcut>>, R("1e-6"), R("1e-7") \otimes odscale)),
        Cl("PcaReturned", pm, VClose(r.ret.sd, xs, T, T) /\ VClose(r.ret.od, ys, T, T) /\ VClose(<<r.ret.sc, r.ret.oc>>, r.vl \o r.hl, T, T)),
        \* cellMCD plots
        Cl("CellPoints", ce, VClose(Masked(xs, ys), Masked(expx, expy), T, T) /\ VClose(Masked(ys, xs), Masked(expy, expx), T, T)),
        Cl("CellLines", ce, Same(r.hl, hline(cut)) /\ (IF plot = "indexplot" THEN r.vl = <<>> ELSE Same(r.vl, vline(cut)))),
        Cl("CellFlagged", ce /\ r.case.names, \A i \in 1..n : LET f == flag(i) a == \E k \in 1..Len(r.texts) : r.texts[k].i = i IN f = 2 \/ (f = 1 /\ a) \/ (f = 0 /\ ~a)),
        Cl("CellAnnotationsPlaced", ce /\ r.case.names, \A k \in 1..Len(r.texts) : LET t == r.texts[k] IN t.i > 0 /\ RClose(t.x, expx[t.i], T, T) /\ RClose(t.y, expy[t.i], T, T)),
        Cl("CellNoNames", ce /\ ~r.case.names, r.texts = <<>>),
        Cl("CellEllipse", ce /\ plot = "bivariate", LET e == TLCEval(SqDists(r.ell, r.mu, r.cov)) rad == ChiPpf(r.q, 2) IN
              Len(r.ell) >= 40 /\ (\A i \in 1..Len(e) : RClose(e[i], rad, R("1e-6"), R("0")))
              /\ \A j \in 1..2 : RClose(MaxOf([i \in 1..Len(r.ell) |-> r.ell[i][j]]) \ominus r.mu[j], RSqrt(rad \otimes r.cov[j][j]), R("0.01"), R("0"))),
        Cl("CellIdentityLine", ce /\ plot = "variable_vs_predictions", r.diag = 1),
        \* cell maps
        Cl("MapShape", hm, Len(r.cells) = zr /\ \A i \in 1..zr : Len(r.cells[i]) = zc),
        Cl("MapValues", hm, Len(r.cells) = zr => \A i \in 1..zr : VClose(r.cells[i], [j \in 1..zc |-> r.std[r.rows[i]][r.cols[j]]], T, T)),
        Cl("MapColourRange", hm, VClose(r.clim, <<R("0") \ominus r.clip, r.clip>>, T, T)),
        Cl("MapColours", hm /\ Len(r.cells) = zr, /\ Cardinality({r.ends[1], r.ends[2], r.ends[3]}) = 3
              /\ \A i \in 1..zr : \A j \in 1..zc : LET v == r.std[r.rows[i]][r.cols[j]] IN
                   /\ (r.clip \prec v => r.colours[i][j] = r.ends[3]) /\ ((r.clip \prec (R("0") \ominus v)) => r.colours[i][j] = r.ends[1])),
        Cl("MapAnnotations", hm /\ r.case.ann, \A k \in 1..Len(r.notes) : LET t == r.notes[k] v == r.x[r.rows[t.i]][r.cols[t.j]] IN RAbs(t.v \ominus v) \preceq R("0.0501") \/ (RIsNaN(t.v) /\ RIsNaN(v))),
        Cl("MapAllAnnotated", hm /\ r.case.ann, Cardinality({<<r.notes[k].i, r.notes[k].j>> : k \in 1..Len(r.notes)}) = Cardinality({<<i, j>> \in (1..zr) \X (1..zc) : ~RIsNaN(r.std[r.rows[i]][r.cols[j]])})),
        Cl("MapNotAnnotated", hm /\ ~r.case.ann, r.notes = <<>>),
        Cl("MapLabels", hm, (\A k \in 1..Len(r.yt) : r.yt[k].i \in 1..zr /\ r.yt[k].label = r.rowlabels[r.rows[r.yt[k].i]]) /\ (\A k \in 1..Len(r.xt) : r.xt[k].i \in 1..zc /\ r.xt[k].label = r.collabels[r.cols[r.xt[k].i]])) >>
=============================================================================
