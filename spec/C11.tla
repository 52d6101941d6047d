--------------------------------- MODULE C11 ---------------------------------
(* Estimating equations of S- and MM-regression at the returned solution.      *)
EXTENDS Regr, GenKit
Xs == {"normal", "corr", "skew", "ints"}
Conts == {"mirror", "none", "vertical", "scattered", "leverage", "mixed"}
SRhos == {"default", "t25", "t3", "t2", "h1", "h2"}
Ns == {12, 17, 25, 40, 60, 90}
Space(e) == [est : {e}, x : Xs, cont : Conts, n : Ns, p : 1..4, rho : SRhos, mrho : IF e = "mm" THEN {"default", "t4685", "t25", "h1345", "h3"} ELSE {"default"},
          icpt : IF e = "mm" THEN {"T"} ELSE {"T", "F"}, seed : 0..3, unit : {"one", "big"}]
Cases == << Pick(Size(200, 1500), Space("s")), Pick(Size(200, 1500), Space("mm")),
            Pick(Size(100, 800), {c \in Space("s") : c.rho = "default"}), Pick(Size(150, 1000), {c \in Space("mm") : c.rho = "default" /\ c.mrho = "default"}),
            (* the iteration itself, cut short *)
            Pick(Size(120, 900), [est : {"mmtraj"}, x : Xs, cont : Conts, n : Ns, p : 1..4, rho : {"default", "t25", "h2"}, mrho : {"default", "t4685", "t25", "h1345", "h3"}, icpt : {"T"}, seed : 0..3, unit : {"one"},
                                  its : 0..5, eps : {"1e-7", "0.02", "0.3", "3.0"}]) >>

Rho(f, x) == IF f.fam = "bisq" THEN BisqRho(x, f.c) ELSE HuberRho(x, f.c)
Psi(f, x) == IF f.fam = "bisq" THEN BisqPsi(x, f.c) ELSE HuberPsi(x, f.c)
Wt(f, x) == IF REq(x, 0) THEN R(1) ELSE Psi(f, x) \oslash x
MeanRho(f, r, s) == Mean([i \in 1..Len(r) |-> Rho(f, r[i] \oslash s)])
(* |sum w r x_j| against sum w |r| |x_j| plus the accuracy of the coefficients *)
Stationary(X, r, w, s, icpt, acc) ==
  LET n == Len(X)
      Ok(xj) == LET t == [i \in 1..n |-> w[i] \otimes xj[i]] a == VAbs(t) IN
                  RAbs(VDot(t, r)) \preceq ((R("1e-5") \otimes VDot(a, VAbs(r))) \oplus ((acc \otimes MaxAbs(xj)) \otimes VSum(w)))
  IN (\A j \in 1..Len(X[1]) : Ok(Col(X, j))) /\ (icpt => Ok(Ones(n)))

(* the reweighted least squares iteration from given residuals, at most k steps, until no residual moves by eps *)
RECURSIVE Irls(_, _, _, _, _, _, _)
Irls(X, y, f, sc, eps, k, st) ==
  IF k = 0 THEN st
  ELSE LET w == TLCEval([i \in 1..Len(y) |-> Wt(f, st.r[i] \oslash sc)])
           q == TLCEval(WLS(X, y, w))
           rn == TLCEval(Resid(X, y, q.b0, q.b))
           d == TLCEval(MaxAbs(VSub(rn, st.r)))
           nx == [r |-> rn, b0 |-> q.b0, b |-> q.b, n |-> st.n + 1, sure |-> st.sure /\ ~RClose(d, eps, R("1e-6"), 0) /\ Cardinality({i \in 1..Len(y) : R("1e-9") \prec w[i]}) > 2 * Len(X[1]) + 2]
       IN IF ~nx.sure \/ d \prec eps THEN nx ELSE Irls(X, y, f, sc, eps, k - 1, nx)
Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X  y == r.y
      rs == TLCEval(Resid(X, y, o.s0, o.s))
      s == o.sscale
      ws == TLCEval([i \in 1..r.n |-> Wt(r.srho, rs[i] \oslash s)])
      isS == ok /\ r.est = "s"
      isT == ok /\ r.est = "mmtraj"
      tr == TLCEval(Irls(X, y, r.mrho, o.mscale, R(r.eps), r.its, [r |-> rs, b0 |-> o.s0, b |-> o.s, n |-> 0, sure |-> TRUE]))
      isM == ok /\ r.est \in {"mm", "mmlts"}
      rm == TLCEval(Resid(X, y, o.m0, o.m))
      wm == TLCEval([i \in 1..r.n |-> Wt(r.mrho, rm[i] \oslash o.mscale)])
      ls == LS(X, y)
      rls == Resid(X, y, ls.b0, ls.b)
  IN << Cl("Returns", TRUE, ok),
        Cl("ScaleEquation", isS, 0 \prec s /\ RClose(MeanRho(r.srho, rs, s), r.b, R("1e-5"), 0)),
        Cl("MoreCandidatesNeverWorse", ok /\ Len(r.chain) > 1, \A k \in 2..Len(r.chain) : r.chain[k] \preceq (r.chain[k - 1] \oplus (R("1e-5") \otimes (r.chain[k - 1] \oplus (R("1e-6") \otimes r.yu))))),
        Cl("SStationary", isS, Stationary(X, rs, ws, s, r.icpt, R("1e-6") \otimes (s \oplus r.yu))),
        (* the S-estimator minimises the scale: it is not worse than least squares *)
        Cl("ScaleNotAboveLeastSquares", isS /\ r.icpt, MeanRho(r.srho, rls, s) \succeq (r.b \otimes R("0.99"))),
        Cl("ScaleOfInitial", isM, RClose(o.mscale, s, R("1e-9"), 0)),
        Cl("MMStationary", isM, Stationary(X, rm, wm, o.mscale, TRUE, (R("1e-6") \otimes o.mscale) \oplus R("1e-7"))),
        Cl("MMLossNotAboveInitial", isM, MeanRho(r.mrho, rm, o.mscale) \preceq (MeanRho(r.mrho, rs, o.mscale) \oplus R("1e-9"))),
        Cl("MMIteration", isT /\ tr.sure, VClose(o.mfit, VSub(y, tr.r), R("1e-6"), R("1e-6") \otimes o.mscale) /\ RClose(o.m0, tr.b0, R("1e-5"), R("1e-5") \otimes (o.mscale \oplus MaxAbs(y))) /\ RClose(o.mscale, s, R("1e-9"), 0)),
        Cl("MMIterationsCounted", isT /\ tr.sure /\ r.niter # 0 - 1, r.niter = tr.n),
        Cl("PredictIsAffine", isS \/ isM, /\ VClose(o.sfit, VSub(y, rs), R("1e-8"), R("1e-8") \otimes MaxAbs(y))
                                         /\ (isM => VClose(o.mfit, VSub(y, rm), R("1e-8"), R("1e-8") \otimes MaxAbs(y)))) >>
=============================================================================
