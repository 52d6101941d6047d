--------------------------------- MODULE MCD ---------------------------------
(* Subset statistics, the concentration step, and the post-processing of the   *)
(* minimum covariance determinant, as functions of the data.                   *)
EXTENDS Stats, Coverage, TLC
SubLoc(X, ix) == ColMeans(Sel(X, ix))
SubCov(X, ix) == Cov(Sel(X, ix))
(* the h rows closest to (mu, S) *)
Closest(X, mu, S, h) == Sub(VArgsort(SqDists(X, mu, S)), 1, h)
CStep(X, ix, h) == Closest(X, TLCEval(SubLoc(X, ix)), TLCEval(SubCov(X, ix)), h)
(* rows in an ascending order of the numbers, so that the set counts *)
DetOf(X, ix) == MDet(TLCEval(SubCov(X, ix)))
Cut(p) == ChiPpf(R("0.975"), p)
RawFactor(d2, p) == Median(d2) \oslash ChiPpf(R("0.5"), p)
RewFactor(p) == R("0.975") \oslash GammaCdf(Cut(p) \oslash 2, (p \oslash 2) \oplus 1)
=============================================================================
