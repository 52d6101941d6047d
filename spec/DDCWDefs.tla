------------------------------- MODULE DDCWDefs -------------------------------
(* The initial estimate of the cellwise MCD as a function of a DDC fit: cap    *)
(* the flagged cells per column, impute, wrapped covariance in the principal   *)
(* axes without the flagged rows, then once more without the outlying cases.   *)
EXTENDS UniDefs, TLC
NoVal(v) == ~RIsFinite(v)
WA == R("0.7532528")
WB == R("0.8430849")
WK == R("4.1517212")
Wq1 == RSqrt(WA \otimes (WK \ominus 1))
Wq2 == R("0.5") \otimes RSqrt(((WK \ominus 1) \otimes Sq(WB)) \oslash WA)
WrapW(u) == IF RAbs(u) \prec R("1.5") THEN R(1) ELSE WrapPsi(RAbs(u), R("1.5"), 4, Wq1, Wq2) \oslash RAbs(u)
(* one wrapped column: location by tanh weights around the univariate MCD, its scale (at least lmin), rescaled to that mean and deviation *)
WrapOne(x, lmin) ==
  LET u == TLCEval(UniMCDOf(x))
      s0 == TLCEval(RSqrt(u.var))
      m == TLCEval(WMean(x, MapSeq(x, LAMBDA v : WrapW((v \ominus u.loc) \oslash s0))))
      s == RMax2(s0, lmin)
      z == TLCEval([i \in 1..Len(x) |-> WrapPsi((x[i] \ominus m) \oslash s, R("1.5"), 4, R("1.540793"), R("0.8622731"))])
      f == TLCEval(s \oslash RSqrt(VarPop(z))) mu == TLCEval(Mean(z))
      z1 == TLCEval([i \in 1..Len(x) |-> (x[i] \ominus m) \oslash s])
  IN [w |-> TLCEval([i \in 1..Len(x) |-> ((z[i] \ominus mu) \otimes f) \oplus m]),
      sure |-> u.sure /\ ~RClose(s0, lmin, R("1e-6"), 0) /\ \A i \in 1..Len(x) : ~RClose(RAbs(z1[i]), R("1.5"), R("1e-6"), 0) /\ ~RClose(RAbs(z1[i]), 4, R("1e-6"), 0)]
(* correlation matrix with eigenvalues raised to at least lmin *)
Raise(S, lmin) == LET E == TLCEval(EigVecs(S)) ev == TLCEval(EigVals(S)) p == Len(S) IN
  TLCEval(MMul(MT(E), MMul(DiagOf([k \in 1..p |-> RMax2(ev[k], lmin)]), E)))
WrapStep(rows, lmin) ==
  LET S == TLCEval(Cov(rows))
      E == TLCEval(EigVecs(S)) ev == TLCEval(EigVals(S)) p == Len(S)
      keep == TLCEval(Positions(ev, LAMBDA v : lmin \prec v))
      A == TLCEval(Sel(E, keep))
      P == TLCEval(MMul(A, MT(rows)))
      w == TLCEval([k \in 1..Len(A) |-> WrapOne(P[k], lmin)])
      C == TLCEval(Cov(MT(TLCEval([k \in 1..Len(A) |-> w[k].w]))))
      G == TLCEval(MMul(MT(A), MMul(C, A)))
      (* an axis without spread in the kept directions has no correlations *)
      fine == Len(rows) > p + 1 /\ Len(keep) > 0 /\ (\A k \in 1..Len(A) : w[k].sure /\ \E i \in 1..Len(rows) : ~RClose(w[k].w[i], w[k].w[1], R("1e-9"), 0)) /\ \A j \in 1..p : lmin \otimes R("0.01") \prec G[j][j]
  IN IF ~fine THEN [cor |-> Identity(p), sure |-> FALSE] ELSE
     [cor |-> Raise(TLCEval(CorrOf(G)), lmin),
      sure |-> (\A k \in 1..p : ~RClose(ev[k], lmin, R("1e-6"), 0)) /\ (\A k \in 1..(p - 1) : ~RClose(ev[k], ev[k + 1], R("1e-4"), 0)) /\ (\A k \in 1..Len(A) : w[k].sure)]
DDCWOf(X, d, alpha, lmin) ==
  LET n == Len(X) p == Len(X[1])
      am == RMax2(alpha, R(n \div 2 + 1) \oslash n)
      share(j) == R(Cardinality({i \in 1..n : d.flag[i][j]})) \oslash n
      big(j) == (1 \ominus am) \prec share(j)
      dev(j) == TLCEval([i \in 1..n |-> IF NoVal(d.res[i][j]) THEN R(-1) ELSE RAbs(d.res[i][j])])
      ord(j) == TLCEval(VArgsort(MapSeq(dev(j), LAMBDA v : RNeg(v))))
      k4 == n \div 4
      cut(j) == LET o == ord(j) IN [top |-> {o[i] : i \in 1..k4}, sure |-> k4 = 0 \/ (LET e == dev(j) IN ~RClose(e[o[k4]], e[o[k4 + 1]], R("1e-9"), 0))]
      capped == TLCEval([j \in 1..p |-> IF big(j) THEN TLCEval(cut(j)) ELSE [top |-> {i \in 1..n : d.flag[i][j]}, sure |-> ~RClose(share(j), 1 \ominus am, R("1e-9"), 0)]])
      Zi == TLCEval(MScale(1, [i \in 1..n |-> [j \in 1..p |-> ((IF i \in capped[j].top \/ NoVal(X[i][j]) THEN d.imp[i][j] ELSE X[i][j]) \ominus d.loc[j]) \oslash d.sc[j]]]))
      Z == TLCEval(MScale(1, [i \in 1..n |-> [j \in 1..p |-> IF NoVal(X[i][j]) THEN Zi[i][j] ELSE (X[i][j] \ominus d.loc[j]) \oslash d.sc[j]]]))
      one == TLCEval(WrapStep(Sel(Zi, Positions(d.rowout, LAMBDA b : ~b)), lmin))
      U == TLCEval(MScale(1, [i \in 1..n |-> [j \in 1..p |-> RMin2(RMax2(Z[i][j], R(-2)), R(2))]]))
      rd == TLCEval(SqDists(U, [j \in 1..p |-> R(0)], one.cor))
      bar == TLCEval((Median(rd) \otimes ChiPpf(R("0.99"), p)) \oslash ChiPpf(R("0.5"), p))
      two == TLCEval(WrapStep(Sel(Zi, Positions(rd, LAMBDA v : v \preceq bar)), lmin))
  IN [cov |-> TLCEval([a \in 1..p |-> [b \in 1..p |-> (two.cor[a][b] \otimes d.sc[a]) \otimes d.sc[b]]]),
      sure |-> (\A j \in 1..p : capped[j].sure) /\ one.sure /\ (\A i \in 1..n : ~RClose(rd[i], bar, R("1e-6"), 0)) /\ two.sure,
      big |-> \E j \in 1..p : big(j), cases |-> \E i \in 1..n : bar \prec rd[i]]
=============================================================================
