------------------------------- MODULE PCADefs -------------------------------
(* ROBPCA stage by stage, and spherical PCA, as functions of the data (and of  *)
(* the outlyingness, whose random directions are C27's subject).               *)
EXTENDS Geo, UniDefs
(* eigenvectors (rows, descending eigenvalues) of the covariance of some rows *)
EigOf(X, ix) == LET S == TLCEval(Cov(Sel(X, ix))) IN [loc |-> TLCEval(ColMeans(Sel(X, ix))), vec |-> TLCEval(EigVecs(S)), val |-> TLCEval(EigVals(S))]
Cumul(v) == LET t == VSum(v) IN [k \in 1..Len(v) |-> VSum(Sub(v, 1, k)) \oslash t]
FirstReach(c, q) == LET S == {k \in 1..Len(c) : q \preceq c[k]} IN IF S = {} THEN Len(c) ELSE CHOOSE k \in S : \A j \in S : k <= j
HPca(n, a, k) == MinI(n, MaxI((a * n) \div 1000, (n + k + 1) \div 2))
RankPos(v) == Cardinality({k \in 1..Len(v) : (R("1e-10") \otimes v[1]) \prec v[k]})
(* no eigenvalue in the range where rounding decides whether it counts *)
ClearRank(v) == \A k \in 1..Len(v) : (R("1e-9") \otimes v[1]) \prec v[k] \/ v[k] \prec (R("1e-14") \otimes v[1])
(* the orthogonal-distance cutoff: Wilson-Hilferty with robust centre and spread *)
OdCut(od) == LET u == TLCEval(UniMCDOf(TLCEval([i \in 1..Len(od) |-> RPow(od[i], R(2) \oslash 3)])))
             IN [cut |-> RPow(u.loc \oplus (RSqrt(u.var) \otimes NormPpf(R("0.975"))), R("1.5")), sure |-> u.sure]
(* a: 1000 alpha, nc: n_components or 0, kmin: threshold *)
RobpcaOf(X, outl, a, nc, kmin) ==
  LET n == Len(X)
      h == HPca(n, a, IF nc = 0 THEN 10 ELSE nc)
      ord == TLCEval(VArgsort(outl))
      hix == TLCEval(Sub(ord, 1, h))
      hsure == h = n \/ ~RClose(outl[ord[h]], outl[ord[h + 1]], R("1e-8"), 0)
      e1 == TLCEval(EigOf(X, hix))
      p == Len(X[1])
      cum == TLCEval(Cumul(e1.val))
      k1 == IF nc = 0 THEN FirstReach(cum, kmin) ELSE nc
      ksure == nc # 0 \/ \A j \in 1..(Len(cum) - 1) : ~RClose(cum[j], kmin, R("1e-9"), 0)
      kb == MinI(k1, RankPos(e1.val))
      B1 == TLCEval(FirstRows(e1.vec, kb))
      allv == TLCEval(EigVals(Cov(X)))
      rank == RankPos(allv)
      od == TLCEval(OrthDist(X, e1.loc, B1))
      oc == TLCEval(OdCut(od))
      split == k1 < rank
      vix == IF split THEN TLCEval(Positions(od, LAMBDA d : d \preceq oc.cut)) ELSE hix
      vsure == ~split \/ (oc.sure /\ \A i \in 1..n : ~RClose(od[i], oc.cut, R("1e-7"), R("1e-9") \otimes oc.cut))
      e2 == TLCEval(EigOf(X, vix))
      k2 == MinI(k1, RankPos(e2.val))
      Gap(e, k) == k >= RankPos(e.val) \/ (R("1e-5") \otimes e.val[1]) \prec (e.val[k] \ominus e.val[k + 1])
  IN [h |-> h, hix |-> hix, k |-> k2, loc |-> e2.loc, B |-> TLCEval(FirstRows(e2.vec, k2)), val |-> Sub(e2.val, 1, k2), cum |-> cum,
      sure |-> ClearRank(allv) /\ ClearRank(e1.val) /\ ClearRank(e2.val) /\ hsure /\ ksure /\ vsure /\ kb = MinI(k1, p) /\ (split => Gap(e1, k1)) /\ Gap(e2, k2), split |-> split, nv |-> Len(vix)]
(* covariance model of components C (columns) with variances v *)
ModelCov(C, v) == MMul(C, MMul(DiagOf(v), MT(C)))

(* spatial signs around m; a sign of 0 is 0 *)
SignCov(X, m) == LET Z == Centred(X, m)
                     U == TLCEval([i \in 1..Len(X) |-> LET d == Norm(Z[i]) IN IF 0 \prec d THEN VScale(1 \oslash d, Z[i]) ELSE VScale(0, Z[i])])
                 IN MScale(R(1) \oslash Len(X), MMul(MT(U), U))
=============================================================================
