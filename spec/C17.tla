--------------------------------- MODULE C17 ---------------------------------
(* Validity and self-consistency of every covariance estimator's outputs.      *)
EXTENDS Stats, GenKit
Fast == {"fast", "fastraw", "det", "detraw", "ogk", "ogkrw", "wrap", "kendall", "fastlazy", "ogklazy", "wraplazy"}
Cell == {"cell", "cell9"}
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cluster30", "shift", "cells", "scales", "tinyscale", "intdtype"}
CellKinds == {"normal", "indep", "corr", "shift", "scales"}
Labs == {"range", "perm", "dup", "str", "date", "neg"}
Ns == {8, 11, 14, 20, 33, 60, 120}
Cases == << Pick(Size(500, 5000), [est : Fast, kind : Kinds, n : Ns, p : 2..7, lab : Labs, rep : 1..2]),
            Pick(Size(60, 500), [est : Cell, kind : CellKinds, n : {40, 60, 90}, p : 2..4, lab : Labs, rep : 1..2]) >>

Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      C == o.cov
      p == r.p
      big == MaxAbsM(C)
      (* conditioning: entries are compared on the scale of the diagonal *)
      d == TLCEval([j \in 1..p |-> RSqrt(C[j][j])])
      CorrC == TLCEval(CorrOf(C))
      ev == TLCEval(EigVals(CorrC))
      rev == TLCEval(EigVals(C))
      wellc == ev[p] \succ R("1e-7") /\ rev[p] \succ (R("1e-9") \otimes rev[1])
      Normed(A) == [i \in 1..p |-> [j \in 1..p |-> (A[i][j] \otimes d[i]) \otimes d[j]]]
      D2(Z) == SqDists(Z, o.loc, C)
      tz == R("1e-8")
      Sqs(s) == [i \in 1..Len(s) |-> Sq(s[i])]
      classical == TLCEval(Cov(r.X))
      cmean == ColMeans(r.X)
  IN << Cl("Returns", TRUE, ok),
        Cl("Finite", ok, MFinite(C) /\ VFinite(o.loc)),
        Cl("SymmetricCovariance", ok, Symmetric(C, R("1e-10"))),
        Cl("PositiveDiagonal", ok, \A j \in 1..p : 0 \prec C[j][j]),
        Cl("PositiveSemiDefinite", ok, PSD(CorrC, R("1e-9"))),
        Cl("NumberOfFeatures", ok, o.nf = p),
        Cl("PrecisionInverts", ok /\ wellc, MClose(MMul(Normed(o.prec), CorrC), Identity(p), 0, R("1e-6"))),
        Cl("CorrelationValid", ok /\ o.hascor, (\A j \in 1..p : RClose(o.cor[j][j], 1, 0, R("1e-9"))) /\ (\A i, j \in 1..p : RAbs(o.cor[i][j]) \preceq R("1.0000000001"))
                                              /\ MClose(o.cor, MT(o.cor), 0, R("1e-12"))),
        Cl("CorrelationMatchesCovariance", ok /\ o.hascor, MClose(o.cor, CorrC, R("1e-8"), R("1e-9"))),
        Cl("MahalanobisOfNewRows", ok /\ wellc, VClose(o.maha, D2(r.Z), R("1e-6"), tz)),
        Cl("RobustDistances", ok /\ wellc, VClose(Sqs(o.rd), D2(r.X), R("1e-6"), tz)),
        Cl("ClassicalDistances", ok, VClose(Sqs(o.md), SqDists(r.X, cmean, classical), R("1e-5"), tz)),
        Cl("FrameEqualsArray", ok, VClose(o.floc, o.loc, 0, 0) /\ MClose(o.fcov, C, 0, 0)) >>
=============================================================================
