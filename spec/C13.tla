--------------------------------- MODULE C13 ---------------------------------
(* CellMCD: the reported weights, predictions, conditional deviations,         *)
(* residuals and imputed data belong to one cellwise model, and that model is  *)
(* where the C-steps from the initial estimate lead.                           *)
EXTENDS CellDefs, GenKit
Kinds == {"normal", "indep", "corr", "rows15", "cells", "shift", "scales", "intdtype"}
Fits == [n : {20, 26, 33, 45, 60, 80}, p : 2..4, kind : Kinds, alpha : {500, 600, 750, 800}, quant : {900, 950, 990, 999}, miss : {0, 5, 12, 18}, out : {0, 5, 12}, emptyrow : {"T", "F"},
         crit : {"tight", "def", "loose"}, cs : {1, 2, 5, 100}, lmin : {"def", "big"}, form : {"array", "frame"}, hist : {"fresh", "refit", "small"}, rep : 1..2]
Cases == << Pick(Size(130, 2500), Fits) >>

Judge(r) ==
  LET ok == r.st = "ok" /\ r.accepted
      o == r.out
      X == r.X
      n == Len(X)
      p == Len(X[1])
      W == o.W
      mu == o.loc
      S == o.cov
      pc == TLCEval([j \in 1..p |-> PredCol(X, W, mu, S, j)])
      sd(j) == RSqrt(S[j][j])
      (* X as the C-steps see it: standardised, cells beyond 3 set aside *)
      Z == TLCEval(MatOf([i \in 1..n |-> [j \in 1..p |-> LET z == (X[i][j] \ominus r.sloc[j]) \oslash r.sscale[j] IN IF Missing(X[i][j]) \/ 3 \prec RAbs(z) THEN R("NaN") ELSE z]]))
      edge3 == \E i \in 1..n : \E j \in 1..p : ~Missing(X[i][j]) /\ RClose(RAbs((X[i][j] \ominus r.sloc[j]) \oslash r.sscale[j]), 3, R("1e-9"), 0)
      Std == TLCEval([a \in 1..p |-> [b \in 1..p |-> S[a][b] \oslash (r.sscale[a] \otimes r.sscale[b])]])
      smu == TLCEval([j \in 1..p |-> (mu[j] \ominus r.sloc[j]) \oslash r.sscale[j]])
      fin == TLCEval(CellMCDOf(Z, r.init.loc, r.init.cov, r.quant, r.h, r.crit, r.lmin, r.cs))
      traj == ok /\ ~edge3 /\ fin.sure
      q0 == TLCEval(CellPenalty(r.quant, r.init.cov))
      W0 == TLCEval([i \in 1..n |-> [j \in 1..p |-> IF Missing(Z[i][j]) THEN 0 ELSE 1]])
      ratio(j) == LET k == Positions([i \in 1..n |-> i], LAMBDA i : ~Missing(X[i][j]) /\ RClose(X[i][j], o.pred[i][j], R("1e-6"), R("1e-6") \otimes sd(j)) = FALSE)
                  IN [c \in 1..Len(k) |-> ((X[k[c]][j] \ominus o.pred[k[c]][j]) \oslash o.cstd[k[c]][j]) \oslash o.res[k[c]][j]]
      badcol == {j \in 1..p : Cardinality({i \in 1..n : ~Missing(X[i][j])}) < 3}
  IN << Cl("Returns", TRUE, r.st = "ok"),
        Cl("WeightsAreZeroOrOne", ok, \A i \in 1..n : \A j \in 1..p : REq(W[i][j], 0) \/ REq(W[i][j], 1)),
        Cl("MissingCellsHaveWeightZero", ok, \A i \in 1..n : \A j \in 1..p : Missing(X[i][j]) => REq(W[i][j], 0)),
        Cl("FarCellsHaveWeightZero", ok /\ ~edge3, \A i \in 1..n : \A j \in 1..p : Missing(Z[i][j]) => REq(W[i][j], 0)),
        Cl("EnoughCellsPerColumn", ok, \A j \in 1..p : r.h <= Len(Ones(Col(W, j)))),
        Cl("CovarianceSymmetricPositive", ok, MFinite(S) /\ Symmetric(S, R("1e-9")) /\ \A j \in 1..p : 0 \prec S[j][j]),
        Cl("SmallestEigenvalueBounded", ok, (r.lmin \otimes R("0.999")) \preceq EigVals(Std)[p]),
        Cl("PredictionsAreConditionalMeans", ok, \A j \in 1..p : VClose(Col(o.pred, j), pc[j].m, R("1e-7"), R("1e-7") \otimes sd(j))),
        Cl("ConditionalDeviations", ok, \A j \in 1..p : VClose(Col(o.cstd, j), [i \in 1..n |-> RSqrt(pc[j].v[i])], R("1e-7"), R("1e-9") \otimes sd(j))),
        Cl("ImputedIsDataOrPrediction", ok, \A i \in 1..n : \A j \in 1..p : IF REq(W[i][j], 1) THEN REq(o.imp[i][j], X[i][j]) ELSE REq(o.imp[i][j], o.pred[i][j])),
        Cl("ImputedFinite", ok, MFinite(o.imp)),
        Cl("ResidualsMissingWithTheCell", ok, \A i \in 1..n : \A j \in 1..p : Missing(o.res[i][j]) <=> Missing(X[i][j])),
        Cl("ResidualsUseConditionalDeviations", ok, \A j \in 1..p : LET c == TLCEval(ratio(j)) IN c = <<>> \/ (\A k \in 1..Len(c) : RClose(c[k], c[1], R("1e-6"), 0))),
        Cl("ResidualsRescaledRobustly", ok, \A j \in 1..p : LET c == TLCEval(ratio(j)) IN c = <<>> \/ RClose(c[1], r.rscale[j], R("1e-6"), 0)),
        Cl("RefitAndContainerIrrelevant", ok, o.same),
        Cl("ObjectiveNotAboveStart", ok /\ ~edge3, LET a == Objective(Z, W0, r.init.loc, r.init.cov, q0) b == Objective(Z, W, smu, Std, q0) IN b \preceq (a \oplus (R("1e-7") \otimes (1 \oplus RAbs(a))))),
        Cl("FinalWeights", traj, \A i \in 1..n : \A j \in 1..p : REq(W[i][j], fin.W[i][j])),
        Cl("FinalLocation", traj, VClose(smu, fin.mu, R("1e-6"), R("1e-7"))),
        Cl("FinalCovariance", traj, MClose(Std, fin.S, R("1e-6"), R("1e-7"))) >>
=============================================================================
