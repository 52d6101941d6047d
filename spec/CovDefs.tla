------------------------------- MODULE CovDefs -------------------------------
(* Definitions of the covariance estimators that are explicit functions of the *)
(* data: OGK, wrapping, Kendall.                                               *)
EXTENDS QnDef, TLC
(* raw median absolute deviation / population standard deviation / Qn          *)
ScaleOf(kind, s) == IF kind = "mad" THEN MADraw(s) ELSE IF kind = "std" THEN RSqrt(VarPop(s)) ELSE QnOf(s, TRUE, TRUE)
LocOf(kind, s) == IF kind = "median" THEN Median(s) ELSE Mean(s)
Cols(X) == MT(X)
(* Gnanadesikan-Kettenring correlation of two standardised columns *)
GK(kind, a, b) == LET u == Sq(ScaleOf(kind, VAdd(a, b))) v == Sq(ScaleOf(kind, VSub(a, b))) IN (u \ominus v) \oslash (u \oplus v)
RECURSIVE OGKIter(_, _, _)
(* one orthogonalisation of columns C: eigenvector rows E of the pairwise      *)
(* correlations, scales s, new columns E Y                                     *)
OGKStep(kind, C) ==
  LET p == Len(C)
      s == TLCEval([j \in 1..p |-> ScaleOf(kind, C[j])])
      Y == TLCEval([j \in 1..p |-> VScale(1 \oslash s[j], C[j])])
      lo == TLCEval([q \in {w \in (1..p) \X (1..p) : w[2] < w[1]} |-> GK(kind, Y[q[1]], Y[q[2]])])
      U == TLCEval([i \in 1..p |-> [j \in 1..p |-> IF i = j THEN R(1) ELSE IF j < i THEN lo[<<i, j>>] ELSE lo[<<j, i>>]]])
      E == TLCEval(EigVecs(U))
      ev == TLCEval(EigVals(U))
  IN [s |-> s, E |-> E, Z |-> TLCEval(MMul(E, Y)),
      gap |-> IF p = 1 THEN R(1) ELSE MinOf([k \in 1..(p - 1) |-> ev[k] \ominus ev[k + 1]])]
(* gap: smallest eigenvalue spacing, the eigenvectors' conditioning *)
(* the linear map A with  x = A z : A = D E' *)
StepMap(st) == LET p == Len(st.s) IN [i \in 1..p |-> [k \in 1..p |-> st.s[i] \otimes st.E[k][i]]]
OGKIter(sk, state, k) ==
  IF k = 0 THEN state
  ELSE LET st == TLCEval(OGKStep(sk, state.C))
           nx == TLCEval([C |-> st.Z, A |-> TLCEval(MMul(state.A, StepMap(st))), gap |-> state.gap \otimes st.gap])
       IN OGKIter(sk, nx, k - 1)
OGKOf(X, lk, sk, iters) ==
  LET fin == TLCEval(OGKIter(sk, [C |-> Cols(X), A |-> Identity(Len(X[1])), gap |-> R(1)], iters))
      p == Len(X[1])
      g2 == TLCEval([j \in 1..p |-> Sq(ScaleOf(sk, fin.C[j]))])
      nu == TLCEval([j \in 1..p |-> LocOf(lk, fin.C[j])])
  IN [loc |-> TLCEval(MV(fin.A, nu)), gap |-> fin.gap,
      cov |-> TLCEval(MMul(fin.A, MMul(DiagOf(g2), MT(fin.A))))]
(* hard rejection step: distances below the calibrated cutoff *)
OGKCut(d, beta, p) == RSqrt(ChiPpf(beta, p) \oslash ChiPpf(R("0.5"), p)) \otimes Median(d)

(* wrapped column: psi of the robustly standardised values, rescaled so that   *)
(* mean and population standard deviation are the median and the raw MAD       *)
WrapCol(s, b, c, q1, q2) ==
  LET m == TLCEval(Median(s)) k == TLCEval(MADraw(s))
      z == TLCEval([i \in 1..Len(s) |-> WrapPsi((s[i] \ominus m) \oslash k, b, c, q1, q2)])
      f == TLCEval(k \oslash RSqrt(VarPop(z))) mu == TLCEval(Mean(z))
  IN TLCEval([i \in 1..Len(s) |-> ((z[i] \ominus mu) \otimes f) \oplus m])

(* Kendall's tau-b *)
PairsN(n) == R((n * (n - 1)) \div 2)
Ties(s) == PairsN(Len(s)) \ominus Concordance(s, s)
TauB(x, y) == Concordance(x, y) \oslash RSqrt((PairsN(Len(x)) \ominus Ties(x)) \otimes (PairsN(Len(y)) \ominus Ties(y)))
=============================================================================
