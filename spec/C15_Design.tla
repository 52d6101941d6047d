------------------------------ MODULE C15_Design ------------------------------
(* The power transformer as a state machine: the configured method, the method *)
(* in force after each fit, and the search for lambda, whose range is widened  *)
(* until the optimum lies inside. Every sequence of fits, every optimum.       *)
(* Lambdas in tenths; Targets are shifted by 200.                             *)
EXTENDS Integers, Sequences
CONSTANTS Targets, MaxFits
VARIABLES method, eff, data, lo, hi, lam, pc, fits, scaled
vars == <<method, eff, data, lo, hi, lam, pc, fits, scaled>>
Methods == {"boxcox", "yeojohnson", "auto"}
Data == [sign : {"positive", "mixed"}, better : {"boxcox", "yeojohnson"}, target : {v - 200 : v \in Targets}]
NoData == [sign |-> "none", better |-> "none", target |-> 0]
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Min(a, b) == IF a < b THEN a ELSE b
Clamp(v) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Init == method \in Methods /\ eff = "none" /\ data = NoData /\ lo = -40 /\ hi = 60 /\ lam = 0 /\ pc = "idle" /\ fits = 0 /\ scaled = 0
Fit == /\ pc \in {"idle", "error"} /\ fits < MaxFits /\ fits' = fits + 1
       /\ \E d \in Data : data' = d
       /\ pc' = IF method = "boxcox" /\ data'.sign # "positive" THEN "error" ELSE "standardise"
       /\ eff' = IF method = "auto" THEN (IF data'.sign = "positive" THEN data'.better ELSE "yeojohnson") ELSE method
       /\ lo' = -40 /\ hi' = 60 /\ scaled' = 0 /\ UNCHANGED <<method, lam>>
Standardise == pc = "standardise" /\ scaled' = scaled + 1 /\ pc' = "search" /\ UNCHANGED <<method, eff, data, lo, hi, lam, fits>>
Search == pc = "search" /\ lam' = Clamp(data.target) /\ pc' = "check" /\ UNCHANGED <<method, eff, data, lo, hi, fits, scaled>>
Check == /\ pc = "check"
         /\ IF 20 * Min(Abs(lam - lo), Abs(lam - hi)) > hi - lo THEN pc' = "idle" /\ UNCHANGED <<lo, hi>>
            ELSE /\ pc' = "search"
                 /\ IF Abs(lam - lo) <= Abs(lam - hi) THEN lo' = 10 + 2 * (lo - 10) /\ hi' = hi ELSE hi' = 10 + 2 * (hi - 10) /\ lo' = lo
         /\ UNCHANGED <<method, eff, data, lam, fits, scaled>>
Next == Fit \/ Standardise \/ Search \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Standardise \/ Search \/ Check)
ConfigKept == [][method' = method]_vars
Fitted == pc = "idle" /\ fits > 0
LambdaIsOptimum == Fitted => lam = data.target
OptimumInside == Fitted => lo < lam /\ lam < hi
EffectiveFromLastData == Fitted => eff = IF method = "auto" THEN (IF data.sign = "positive" THEN data.better ELSE "yeojohnson") ELSE method
BoxCoxOnlyPositive == Fitted /\ eff = "boxcox" => data.sign = "positive"
(* the data are standardised exactly once per fit, however often the range grows *)
StandardisedOnce == Fitted => scaled = 1
Terminates == (pc = "standardise") ~> (pc = "idle")
=============================================================================
