--------------------------------- MODULE C04 ---------------------------------
(* Univariate MCD. The raw estimate is the mean and variance of a subset of    *)
(* size h with minimal variance among ALL subsets of size h; the final one the *)
(* mean and variance of the points within the 97.5% chi-square cutoff of it.   *)
EXTENDS Stats, Coverage, GenKit

(* ---- configuration space *)
Multi(n, k) == {s \in [1..n -> 0..k] : \A i \in 1..(n-1) : s[i] <= s[i+1]}
Small == UNION {[src : {"x"}, x : Multi(n, Size(3, 5)), perm : {0, 1}, at : {"none", "float"}, a : {700}, cc : {"T", "F"}] : n \in 3..Size(6, 7)}
Sampled == [src : {"gen"}, n : {3, 4, 5, 7, 8, 10, 11, 16, 25, 40, 63, 100, 151}, k : 1..3,
            kind : {"normal", "skew", "heavy", "ints", "intdtype", "ties", "out20", "cluster", "shifted", "tiny", "huge", "bimodal", "majority", "sorted"},
            at : {"none", "float", "float", "int"}, a : {500, 580, 750, 900, 1000, 1, 2, 3}, cc : {"T", "F"}]
Cases == << Pick(Size(700, 6000), Small), Pick(Size(1300, 9000), Sampled) >>

(* ---- the specification *)
AlphaArg(r) == r.alpha
Hh(r) == HOf(r.at, r.a, Len(r.x), HMinUni(Len(r.x)))
Windows(x, h) == LET s == TLCEval(VSort(x)) IN [i \in 1..(Len(x) - h + 1) |-> Sub(s, i, i + h - 1)]
MinOfSet(S) == CHOOSE m \in S : \A y \in S : m \preceq y
(* small samples: literally every subset of size h; otherwise every contiguous *)
(* run of the sorted sample (C04_Design proves the two agree)                  *)
Candidates(x, h) ==
  IF Len(x) <= 7 THEN TLCEval(LET all == {SetSeq(T) : T \in SubsetsOfSize(h, 1..Len(x))} IN SetToSeq({Sel(x, t) : t \in all}))
  ELSE Windows(x, h)
RawFactor(h, n) == (h \oslash n) \oslash ChiCdf(ChiPpf(h \oslash n, 1), 3)
FinalFactor(d) == d \oslash GammaCdf(ChiPpf(d, 1) \oslash 2, R("1.5"))

Judge(r) ==
  LET x == r.x
      n == Len(x)
      h == Hh(r)
      cc == r.cc
      scale == RMax2(Spread(x), R("1e-300"))
      eps == (R("1e-7") \otimes Sq(scale)) \oplus (R("1e-13") \otimes Sq(MaxAbs(x)))
      leps == (R("1e-9") \otimes scale) \oplus (R("1e-13") \otimes MaxAbs(x))
      ok == r.st = "ok"
      full == h = n
      cand == TLCEval(Candidates(x, h))
      vars == TLCEval(MapSeq(cand, VarPop))
      best == MinOf(vars)
      rf == IF cc THEN RawFactor(h, n) ELSE R(1)
      veps == (R("1e-6") \otimes best) \oplus (R("1e-12") \otimes Sq(MaxAbs(x)))
      o == r.out
      sep == Sq(R("1e-7")) \otimes Sq(MaxAbs(x))   \* below this the variance is rounding noise
      degen == best \preceq sep
      d2 == TLCEval(MapSeq(x, LAMBDA v : Sq(v \ominus o.rawloc) \oslash o.rawvar))
      cut == ChiPpf(R("0.975"), 1)
      border == \E i \in 1..n : RClose(d2[i], cut, R("1e-7"), 0)
      kept == TLCEval(Positions(d2, LAMBDA q : q \prec cut))
      xs == Sel(x, kept)
      del == R(Len(kept)) \oslash n
      vf == VarPop(xs) \otimes (IF cc THEN FinalFactor(del) ELSE R(1))
  IN << Cl("Returns", TRUE, ok),
        Cl("HSize", ok, o.h = h),
        Cl("RawVarianceMinimal", ok /\ ~full, RClose(o.rawvar, rf \otimes best, R("1e-6"), eps \otimes R("1e-6"))),
        Cl("RawLocationOfAMinimiser", ok /\ ~full,
           \E i \in 1..Len(cand) : vars[i] \preceq (best \oplus veps) /\ RClose(o.rawloc, Mean(cand[i]), R("1e-9"), leps)),
        Cl("FullSampleIsMeanAndStd", ok /\ full,
           RClose(o.loc, Mean(x), R("1e-9"), leps) /\ RClose(o.var, VarPop(x), R("1e-7"), eps)
           /\ RClose(o.rawloc, Mean(x), R("1e-9"), leps) /\ RClose(o.rawvar, VarPop(x), R("1e-7"), eps)),
        Cl("FinalLocationReweighted", ok /\ ~full /\ ~degen /\ ~border /\ Len(kept) > 0, RClose(o.loc, Mean(xs), R("1e-9"), leps)),
        Cl("FinalVarianceReweighted", ok /\ ~full /\ ~degen /\ ~border /\ Len(kept) > 0, RClose(o.var, vf, R("1e-7"), R("1e-9") \otimes vf)),
        Cl("DegenerateIsExact", ok /\ ~full /\ degen,
           RIsFinite(o.loc) /\ RIsFinite(o.var) /\ Sq(o.scale) \preceq (R("1e-9") \otimes Sq(MaxAbs(x)))
           /\ \E i \in 1..Len(cand) : vars[i] \preceq (best \oplus veps) /\ RClose(o.loc, Mean(cand[i]), R("1e-6"), R("1e-6") \otimes MaxAbs(x))),
        Cl("ScaleIsRootOfVariance", ok, RClose(Sq(o.scale), o.var, R("1e-9"), 0) /\ RClose(Sq(o.rawscale), o.rawvar, R("1e-9"), 0)) >>
=============================================================================
