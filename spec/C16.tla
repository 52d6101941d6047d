--------------------------------- MODULE C16 ---------------------------------
(* OGK, wrapping and Kendall covariances recomputed from their definitions.    *)
EXTENDS CovDefs, DDCWDefs, GenKit
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cluster30", "shift", "cells", "scales", "tinyscale"}
Ns == {8, 11, 15, 20, 33, 50, 80}
OGKs == [est : {"ogk"}, kind : Kinds, n : Ns, p : 2..6, it : 1..4, lk : {"median", "mean"}, sk : {"mad", "std", "qn"}, rw : {"T", "F"}, beta : {500, 900, 975}]
Wraps == [est : {"wrap"}, kind : Kinds, n : Ns \cup {200}, p : 2..6, par : 0..3, cen : {"T", "F", "F2"}]
Kens == [est : {"kendall"}, kind : Kinds \cup {"ties", "intdtype"}, n : Ns, p : 2..6, rep : 1..3]
DDCWs == [est : {"ddcw"}, kind : {"normal", "corr", "heavy", "rows15", "cluster30", "cells", "shift", "scales"}, n : {24, 30, 41, 60, 100}, p : 2..5, alpha : {500, 600, 750, 900}, lmin : {"1e-4", "0.02", "0.2"}, miss : {0, 1, 10, 20}, bigcol : {0, 1, 2}, rep : 1..2]
Cases == << Pick(Size(300, 3000), OGKs), Pick(Size(200, 2000), Wraps), Pick(Size(200, 1500), Kens), Pick(Size(60, 1200), DDCWs) >>

Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X
      p == r.p
      isO == ok /\ r.est = "ogk"
      raw == TLCEval(OGKOf(X, r.lk, r.sk, r.it))
      sep == raw.gap \succ (IF r.case.kind = "shift" THEN R("1e-2") ELSE R("1e-4"))
      d2 == TLCEval(SqDists(X, raw.loc, raw.cov))
      d == TLCEval([i \in 1..Len(X) |-> RSqrt(d2[i])])
      cut == TLCEval(OGKCut(d, r.beta \oslash 1000, p))
      clear == \A i \in 1..Len(X) : ~RClose(d[i], cut, R("1e-7"), 0)
      kept == TLCEval(Positions(d, LAMBDA v : v \prec cut))
      S(v) == R("1e-8") \otimes MaxAbsM(v)
      SameM(a, b) == MClose(a, b, R("1e-6"), S(b))
      tl == R("1e-8") \otimes MaxAbsM(X)
      W == TLCEval(MT(TLCEval([j \in 1..p |-> WrapCol(Col(X, j), r.b, r.c, r.q1, r.q2)])))
      spread == \A j \in 1..p : 0 \prec MADraw(Col(X, j))
      edge == \A j \in 1..p : LET m == TLCEval(Median(Col(X, j))) k == TLCEval(MADraw(Col(X, j))) IN
                \A i \in 1..Len(X) : LET z == RAbs(X[i][j] \ominus m) \oslash k IN ~RClose(z, r.b, R("1e-9"), 0) /\ ~RClose(z, r.c, R("1e-9"), 0)
      isW == ok /\ r.est = "wrap" /\ spread /\ edge
      isD == ok /\ r.est = "ddcw"
      dw == TLCEval(DDCWOf(X, r.ddc, r.alpha, r.lmin))
      isKD == ok /\ r.est = "kendall"
      isK == isKD /\ r.dst = "ok"
      q == TLCEval([j \in 1..p |-> QnOf(Col(X, j), TRUE, TRUE)])
      T == TLCEval([i \in 1..p |-> [j \in 1..p |-> IF i = j THEN R(1) ELSE TauB(Col(X, i), Col(X, j))]])
      KC == TLCEval([i \in 1..p |-> [j \in 1..p |-> (T[i][j] \otimes q[i]) \otimes q[j]]])
      kev == TLCEval(EigVals(T))
  IN << Cl("Returns", TRUE, ok),
        Cl("OGKAnswers", isO /\ (~r.rw \/ (sep /\ clear /\ Len(kept) > p + 1)), r.dst = "ok"),
        Cl("OGKLocation", isO /\ r.dst = "ok" /\ ~r.rw /\ sep, VClose(o.loc, raw.loc, R("1e-7"), tl)),
        Cl("OGKCovariance", isO /\ r.dst = "ok" /\ ~r.rw /\ sep, SameM(o.cov, raw.cov)),
        Cl("OGKReweighted", isO /\ r.dst = "ok" /\ r.rw /\ sep /\ clear /\ Len(kept) > p,
             VClose(o.loc, ColMeans(Sel(X, kept)), R("1e-7"), tl) /\ SameM(o.cov, Cov(Sel(X, kept)))),
        Cl("WrappingCovariance", isW, SameM(o.cov, Cov(W))),
        Cl("WrappingCorrelation", isW, MClose(o.cor, CorrOf(Cov(W)), R("1e-7"), R("1e-8"))),
        Cl("WrappingLocation", isW, VClose(o.loc, IF r.cen THEN [j \in 1..p |-> R(0)] ELSE ColMeans(W), R("1e-9"), tl)),
        Cl("KendallAnswers", isKD /\ (\A j \in 1..p : 0 \prec q[j]) /\ (\A j \in 1..p : R("1e-6") \prec RAbs(kev[j])), r.dst = "ok"),
        Cl("KendallLocation", isK, VClose(o.loc, [j \in 1..p |-> Median(Col(X, j))], R("1e-12"), R("1e-12") \otimes MaxAbsM(X))),
        Cl("KendallCorrelation", isK, MClose(o.cor, T, R("1e-9"), R("1e-10"))),
        Cl("KendallCovariance", isK, MClose(o.cov, KC, R("1e-8"), S(o.cov))),
        Cl("DDCWAnswers", isD /\ dw.sure, r.dst = "ok"),
        Cl("DDCWLocation", isD /\ r.dst = "ok", VClose(o.loc, r.ddc.loc, R("1e-10"), 0)),
        Cl("DDCWCovariance", isD /\ r.dst = "ok" /\ dw.sure, LET sd == [j \in 1..p |-> RSqrt(dw.cov[j][j])] IN \A a \in 1..p : \A b \in 1..p : RClose(o.cov[a][b], dw.cov[a][b], R("1e-5"), R("1e-5") \otimes (sd[a] \otimes sd[b]))) >>
=============================================================================
