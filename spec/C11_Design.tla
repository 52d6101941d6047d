------------------------------ MODULE C11_Design ------------------------------
(* The two iterations behind S- and MM-estimation, run in double arithmetic on *)
(* every small integer sample (location model): the fixed-point iteration of   *)
(* the M-scale s <- s sqrt(mean rho(r/s)/b), then iteratively reweighted means  *)
(* with the scale held fixed.                                                  *)
EXTENDS Stats, TLC
CONSTANTS MaxN, MaxV, MaxIt
VARIABLES x, s, m, it, prev, pc
vars == <<x, s, m, it, prev, pc>>
c1 == R("1.547")
b == R("0.1994")
c2 == R("3.44")
n == Len(x)
Res(t) == [i \in 1..n |-> x[i] \ominus t]
MRho(r, u, c) == Mean([i \in 1..n |-> BisqRho(r[i] \oslash u, c)])
W(t) == [i \in 1..n |-> LET u == (x[i] \ominus t) \oslash s IN IF REq(u, 0) THEN R(1) ELSE BisqPsi(u, c2) \oslash u]
Loss(t) == MRho(Res(t), s, c2)
Med == Median(x)
NoMajority == \A v \in 0..MaxV : 2 * Cardinality({i \in 1..n : x[i] = v}) <= n - 1
Init == x = <<>> /\ s = R(1) /\ m = R(0) /\ it = 0 /\ prev = R(0) /\ pc = "build"
Build == /\ pc = "build" /\ n < MaxN
         /\ \E v \in 0..MaxV : v >= (IF x = <<>> THEN 0 ELSE x[n]) /\ x' = Append(x, v)
         /\ UNCHANGED <<s, m, it, prev, pc>>
Start == /\ pc = "build" /\ n >= 3 /\ NoMajority /\ 0 \prec MADraw(x)
         /\ m' = Med /\ s' = MADN(x) /\ pc' = "scale" /\ UNCHANGED <<x, it, prev>>
NewS == s \otimes RSqrt(MRho(Res(m), s, c1) \oslash b)
ScaleStep == /\ pc = "scale" /\ ~RClose(NewS, s, R("1e-9"), 0) /\ prev' = s /\ s' = NewS /\ it' = it + 1 /\ UNCHANGED <<x, m, pc>>
ScaleDone == /\ pc = "scale" /\ RClose(NewS, s, R("1e-9"), 0) /\ pc' = "irls" /\ it' = 0 /\ prev' = R(0) /\ UNCHANGED <<x, s, m>>
NewM == LET w == W(m) IN VDot(w, x) \oslash VSum(w)
Reweight == /\ pc = "irls" /\ ~RClose(NewM, m, 0, R("1e-7") \otimes s) /\ m' = NewM /\ prev' = m /\ it' = it + 1 /\ UNCHANGED <<x, s, pc>>
Done == /\ pc = "irls" /\ RClose(NewM, m, 0, R("1e-7") \otimes s) /\ pc' = "done" /\ UNCHANGED <<x, s, m, it, prev>>
Next == Build \/ Start \/ ScaleStep \/ ScaleDone \/ Reweight \/ Done
Spec == Init /\ [][Next]_vars
(* the scale iteration approaches the solution from one side *)
Monotone == [][pc = "scale" /\ pc' = "scale" => (MRho(Res(m), s, c1) \succ b <=> s \prec s') \/ RClose(s, s', R("1e-8"), 0)]_vars
Solved == pc \in {"irls", "done"} => RClose(MRho(Res(Med), s, c1), b, R("1e-6"), 0)
(* reweighting never raises the loss, and keeps the estimate inside the data *)
Descent == [][pc = "irls" /\ pc' = "irls" => Loss(m') \preceq (Loss(m) \oplus R("1e-12"))]_vars
Inside == pc \in {"scale", "irls", "done"} => x[1] \preceq (m \oplus R("1e-12")) /\ m \preceq (x[n] \oplus R("1e-12"))
Stationary == pc = "done" => RAbs(VSum([i \in 1..n |-> BisqPsi((x[i] \ominus m) \oslash s, c2)])) \preceq R("1e-5")
Terminates == it <= MaxIt
=============================================================================
