--------------------------------- MODULE Regr ---------------------------------
(* Least squares with an intercept, plain and weighted, on rows X and target y.*)
EXTENDS Stats, TLC
LinPred(X, b0, b) == [i \in 1..Len(X) |-> b0 \oplus VDot(X[i], b)]
Resid(X, y, b0, b) == VSub(y, LinPred(X, b0, b))
(* weighted least squares: centre by weighted means, then normal equations *)
WLS(X, y, w) ==
  LET n == Len(X)  p == Len(X[1])
      W == VSum(w)
      mx == TLCEval([j \in 1..p |-> VDot(w, Col(X, j)) \oslash W])
      my == TLCEval(VDot(w, y) \oslash W)
      Z == TLCEval([i \in 1..n |-> VSub(X[i], mx)])
      ZtW == TLCEval([j \in 1..p |-> [i \in 1..n |-> w[i] \otimes Z[i][j]]])
      A == TLCEval(MMul(ZtW, Z))
      q == TLCEval([j \in 1..p |-> <<VDot(ZtW[j], VShift(y, RNeg(my)))>>])
      b == TLCEval(Col(MSolve(A, q), 1))
  IN [b0 |-> my \ominus VDot(mx, b), b |-> b]
Ones(n) == [i \in 1..n |-> 1]
LS(X, y) == WLS(X, y, Ones(Len(X)))
(* without intercept *)
LS0(X, y, w) == LET p == Len(X[1])
                    XtW == [j \in 1..p |-> [i \in 1..Len(X) |-> w[i] \otimes X[i][j]]]
                IN [b0 |-> R(0), b |-> Col(MSolve(MMul(XtW, X), [j \in 1..p |-> <<VDot(XtW[j], y)>>]), 1)]
LSOn(X, y, ix) == LS(Sel(X, ix), Sel(y, ix))
SqRes(X, y, f) == LET r == Resid(X, y, f.b0, f.b) IN VMul(r, r)
SumSmallest(s, h) == VSum(Sub(VSort(s), 1, h))
=============================================================================
