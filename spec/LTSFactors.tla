------------------------------ MODULE LTSFactors ------------------------------
(* Small-sample correction factors of the LTS scale (Pison, Van Aelst and      *)
(* Willems 2002; robustbase ltsReg): fp(500) and fp(875) are fitted in n and p, *)
(* interpolated in alpha, and the factor is 1/fp.                              *)
EXTENDS Stats
Lin2(c1, e1, q1, c2, e2, q2, p, n) ==
  (* two fits  -c/p^e  at  q*p^2  observations  determine  1 - exp(u0) / n^u1  *)
  LET y1 == RLn(RNeg(c1) \oslash RPow(p, e1))
      y2 == RLn(RNeg(c2) \oslash RPow(p, e2))
      x1 == RNeg(RLn(q1 \otimes (p * p)))
      x2 == RNeg(RLn(q2 \otimes (p * p)))
      u1 == (y1 \ominus y2) \oslash (x1 \ominus x2)
      u0 == y1 \ominus (u1 \otimes x1)
  IN 1 \ominus (RExp(u0) \oslash RPow(n, u1))
One(a, b, n) == 1 \ominus (RExp(a) \oslash RPow(n, b))
Raw500(p, n) == IF p = 0 THEN One(R("0.262024211897096"), R("0.604756680630497"), n) ELSE IF p = 1 THEN One(R("0.630869217886906"), R("0.650789250442946"), n)
  ELSE Lin2(R("-0.746945886714663"), R("0.56264937192689"), 3, R("-0.535478048924724"), R("0.543323462033445"), 5, p, n)
Raw875(p, n) == IF p = 0 THEN One(R("-0.351584646688712"), R("1.01646567502486"), n) ELSE IF p = 1 THEN One(R("0.565065391014791"), R("1.03044199012509"), n)
  ELSE Lin2(R("-0.458580153984614"), R("1.12236071104403"), 3, R("-0.267178168108996"), R("1.1022478781154"), 5, p, n)
Rew500(p, n) == IF p = 0 THEN One(R("1.11098143415027"), R("1.5182890270453"), n) ELSE IF p = 1 THEN One(R("1.58609654199605"), R("1.46340162526468"), n)
  ELSE Lin2(R("-0.773365715932083"), R("2.02013996406346"), 3, R("-0.337571678986723"), R("2.02037467454833"), 5, p, n)
Rew875(p, n) == IF p = 0 THEN One(R("-0.66046776772861"), R("0.88939595831888"), n) ELSE IF p = 1 THEN One(R("0.391653958727332"), R("1.03167487483316"), n)
  ELSE Lin2(R("-0.474174840843602"), R("1.39681715704956"), 3, R("-0.276640353112907"), R("1.42543242287677"), 5, p, n)
Interp(f5, f8, al) == IF al \preceq R("0.875") THEN f5 \oplus (((f8 \ominus f5) \oslash R("0.375")) \otimes (al \ominus R("0.5")))
                      ELSE f8 \oplus (((1 \ominus f8) \oslash R("0.125")) \otimes (al \ominus R("0.875")))
(* with an intercept only (p = 0) the fits are for the squared factor *)
Root(p, f) == IF p = 0 THEN RSqrt(f) ELSE f
RawCorrection(p, n, al) == 1 \oslash Root(p, Interp(Raw500(p, n), Raw875(p, n), al))
RewCorrection(p, n, al) == 1 \oslash Root(p, Interp(Rew500(p, n), Rew875(p, n), al))
(* consistency at the normal when a fraction q of the residuals is used *)
NormPdf(x) == RExp(RNeg(Sq(x) \oslash 2)) \oslash RSqrt(2 \otimes R("3.141592653589793"))
Consistency(h, n) == IF h = n THEN R(1) ELSE
  LET a == h \oslash n  z == NormPpf((1 \oplus a) \oslash 2) IN 1 \oslash RSqrt(1 \ominus (((2 \otimes z) \otimes NormPdf(z)) \oslash a))
=============================================================================
