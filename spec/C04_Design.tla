------------------------------ MODULE C04_Design ------------------------------
(* The sliding-window search of the univariate MCD on integer samples: the     *)
(* sample is built value by value (in increasing order), then a window of      *)
(* length h slides over it. Variances are compared exactly as                  *)
(*   h * sum of squares - (sum)^2.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxV
VARIABLES x, h, i, best, at, pc
vars == <<x, h, i, best, at, pc>>
Sum(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k-1] + s[k] IN F[Len(s)]
SS(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k-1] + s[k] * s[k] IN F[Len(s)]
V(s) == Len(s) * SS(s) - Sum(s) * Sum(s)
Win(k) == SubSeq(x, k, k + h - 1)
RECURSIVE Pickseq(_, _)
Pickseq(T, k) == IF k = 0 THEN <<>> ELSE IF k \in T THEN Append(Pickseq(T, k-1), x[k]) ELSE Pickseq(T, k-1)
Inf == 100000

Init == x = <<>> /\ h = 0 /\ i = 0 /\ best = Inf /\ at = 0 /\ pc = "build"
Build == /\ pc = "build" /\ Len(x) < MaxN
         /\ \E v \in 0..MaxV : v >= (IF x = <<>> THEN 0 ELSE x[Len(x)]) /\ x' = Append(x, v)
         /\ UNCHANGED <<h, i, best, at, pc>>
Start == /\ pc = "build" /\ Len(x) >= 2
         /\ h' \in (Len(x) \div 2 + 1)..Len(x)
         /\ i' = 1 /\ best' = Inf /\ at' = 0 /\ pc' = "slide" /\ UNCHANGED x
Improve == pc = "slide" /\ i <= Len(x) - h + 1 /\ V(Win(i)) < best /\ best' = V(Win(i)) /\ at' = i /\ i' = i + 1 /\ UNCHANGED <<x, h, pc>>
Skip == pc = "slide" /\ i <= Len(x) - h + 1 /\ ~(V(Win(i)) < best) /\ i' = i + 1 /\ UNCHANGED <<x, h, best, at, pc>>
Done == pc = "slide" /\ i = Len(x) - h + 2 /\ pc' = "done" /\ UNCHANGED <<x, h, i, best, at>>
Next == Build \/ Start \/ Improve \/ Skip \/ Done
Spec == Init /\ [][Next]_vars

(* the window found is optimal among all subsets of size h, not only windows *)
Optimal == pc = "done" => \A T \in SUBSET (1..Len(x)) : Cardinality(T) = h => best <= V(Pickseq(T, Len(x)))
Attained == pc = "done" => at >= 1 /\ V(Win(at)) = best
(* exact fit: when h observations coincide the minimum is 0 and is found *)
ExactFit == pc = "done" => ((\E v \in 0..MaxV : Cardinality({k \in 1..Len(x) : x[k] = v}) >= h) <=> best = 0)
(* a sample shifted by c gives the same optimum (equivariance) *)
Monotone == pc = "slide" /\ at > 0 => \A k \in 1..(i-1) : best <= V(Win(k))
=============================================================================
