------------------------------- MODULE DetDefs -------------------------------
(* The deterministic MCD search: six documented initial estimates of the       *)
(* columnwise standardised data (hyperbolic tangents, ranks, normal scores,    *)
(* spatial signs, the half closest to the centre, OGK), each turned into an    *)
(* h-subset by re-estimated scales along its eigenvectors, then concentrated   *)
(* until the determinant stops falling.                                        *)
EXTENDS MCD, CovDefs
QnS(s) == QnOf(s, TRUE, TRUE)
(* average ranks *)
Ranks(s) == [i \in 1..Len(s) |-> R(1) \oplus (CountIf(s, LAMBDA v : v \prec s[i]) \oplus ((CountIf(s, LAMBDA v : REq(v, s[i])) - 1) \oslash 2))]
Scores(C) == LET n == Len(C[1]) IN TLCEval([j \in 1..Len(C) |-> TLCEval(LET q == TLCEval(Ranks(C[j])) IN [i \in 1..n |-> NormPpf((q[i] \ominus (1 \oslash 3)) \oslash (n \oplus (1 \oslash 3)))])])
CorC(C) == TLCEval(CorrOf(TLCEval(Cov(TLCEval(MT(C))))))
StdCols(X) == TLCEval([j \in 1..Len(X[1]) |-> LET s == TLCEval(Col(X, j)) m == TLCEval(Median(s)) q == TLCEval(QnS(s)) IN TLCEval([i \in 1..Len(s) |-> (s[i] \ominus m) \oslash q])])
Norms(Z) == TLCEval([i \in 1..Len(Z) |-> RSqrt(VDot(Z[i], Z[i]))])
Signs(Z) == LET d == Norms(Z) IN TLCEval([i \in 1..Len(Z) |-> IF 0 \prec d[i] THEN VScale(1 \oslash d[i], Z[i]) ELSE Z[i]])
Half(n) == (n + 1) \div 2
Initials(C, Z) == LET n == Len(Z) p == Len(C) IN
  << CorC(TLCEval([j \in 1..p |-> MapSeq(C[j], LAMBDA v : RTanh(v))])),
     CorC(TLCEval([j \in 1..p |-> TLCEval(Ranks(C[j]))])),
     CorC(Scores(C)),
     TLCEval(LET G == Signs(Z) IN MScale(1 \oslash n, MMul(MT(G), G))),
     TLCEval(Cov(Sel(Z, Sub(VArgsort(Norms(Z)), 1, Half(n))))),
     TLCEval(OGKOf(Z, "median", "qn", 2).cov) >>
(* the eigenvectors with scales re-estimated along them: location and scatter  *)
Restored(Z, S) ==
  LET E == TLCEval(EigVecs(S))
      p == Len(S)
      B == TLCEval(MMul(E, MT(Z)))
      V == TLCEval(MMul(MT(E), MMul(DiagOf([j \in 1..p |-> Sq(QnS(B[j]))]), E)))
      W == TLCEval(MT(TLCEval(MMul(Z, TLCEval(MSymPow(V, R("-0.5")))))))
      m == TLCEval(MV(TLCEval(MSymPow(V, R("0.5"))), [j \in 1..p |-> Median(W[j])]))
  IN [loc |-> m, cov |-> V]
GapOf(S) == LET e == EigVals(S) IN MinOf([k \in 1..(Len(e) - 1) |-> e[k] \ominus e[k + 1]]) \oslash e[1]
RECURSIVE Concentrate(_, _, _, _, _)
Concentrate(X, ix, det, h, k) ==
  LET nx == TLCEval(CStep(X, ix, h)) d == TLCEval(DetOf(X, nx))
  IN IF k = 0 \/ (det \ominus d) \preceq (R("1e-8") \otimes det) THEN det ELSE Concentrate(X, nx, d, h, k - 1)
(* the determinants the six chains end with; a chain whose eigenvectors are    *)
(* not determined by the estimate gives none                                   *)
DetChains(X, h) ==
  LET C == StdCols(X)
      Z == TLCEval(MT(C))
      I == Initials(C, Z)
      Chain(S) == LET q == TLCEval(Restored(Z, S))
                      h0 == TLCEval(Closest(Z, q.loc, q.cov, Half(Len(Z))))
                      first == TLCEval(CStep(X, h0, h))
                  IN Concentrate(X, first, TLCEval(DetOf(X, first)), h, 60)
      use == {k \in 1..6 : R("1e-5") \prec GapOf(I[k])}
  IN TLCEval([k \in use |-> Chain(I[k])])
=============================================================================
