------------------------------ MODULE C06_Design ------------------------------
(* One reweighting step on small integer samples: the initial value is the     *)
(* median, weights depend on the distance to it in units of the (doubled) MAD  *)
(* and are a decreasing step function of it; location is the weighted mean.    *)
(* All samples are built; the invariants are those the real estimators rely on.*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxV
VARIABLES x, med2, mad4, w, num, den, pc
vars == <<x, med2, mad4, w, num, den, pc>>
n == Len(x)
Abs(v) == IF v < 0 THEN -v ELSE v
SortedBy(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
(* twice the median of a sorted sequence *)
Med2(s) == LET k == Len(s) IN IF k % 2 = 1 THEN 2 * s[(k + 1) \div 2] ELSE s[k \div 2] + s[k \div 2 + 1]
RECURSIVE Insert(_, _)
Insert(s, v) == IF s = <<>> THEN <<v>> ELSE IF v <= s[1] THEN <<v>> \o s ELSE <<s[1]>> \o Insert(Tail(s), v)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), s[1])
Sum(f) == LET F[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE F[k-1] + f[k] IN F[Len(f)]
(* weight of a distance d2 = 2|x - med| against mad4 = 4*MAD: 3, 2, 1, 0 *)
Wt(d2, m4) == IF 2 * d2 <= m4 THEN 3 ELSE IF d2 <= m4 THEN 2 ELSE IF d2 <= 2 * m4 THEN 1 ELSE 0

Init == x = <<>> /\ med2 = 0 /\ mad4 = 0 /\ w = <<>> /\ num = 0 /\ den = 0 /\ pc = "build"
Build == /\ pc = "build" /\ n < MaxN
         /\ \E v \in 0..MaxV : v >= (IF x = <<>> THEN 0 ELSE x[n]) /\ x' = Append(x, v)
         /\ UNCHANGED <<med2, mad4, w, num, den, pc>>
Start == /\ pc = "build" /\ n >= 2 /\ med2' = Med2(x) /\ pc' = "mad" /\ UNCHANGED <<x, mad4, w, num, den>>
Mad == /\ pc = "mad" /\ mad4' = Med2(Sort([i \in 1..n |-> Abs(2 * x[i] - med2)])) /\ pc' = "weights" /\ UNCHANGED <<x, med2, w, num, den>>
Degenerate == /\ pc = "weights" /\ mad4 = 0 /\ num' = med2 /\ den' = 2 /\ pc' = "done" /\ UNCHANGED <<x, med2, mad4, w>>
Weigh == /\ pc = "weights" /\ mad4 > 0
         /\ w' = [i \in 1..n |-> Wt(Abs(2 * x[i] - med2), mad4)]
         /\ num' = Sum([i \in 1..n |-> w'[i] * x[i]]) /\ den' = Sum(w') /\ pc' = "done" /\ UNCHANGED <<x, med2, mad4>>
Next == Build \/ Start \/ Mad \/ Degenerate \/ Weigh
Spec == Init /\ [][Next]_vars
(* never a division by zero, and the location stays inside the data *)
Defined == pc = "done" => den > 0
InRange == pc = "done" => x[1] * den <= num /\ num <= x[n] * den
(* at least half of the weight mass sits on the inner half of the sample *)
HalfKept == pc = "done" /\ mad4 > 0 => 2 * Cardinality({i \in 1..n : w[i] > 0}) >= n
(* the MAD vanishes exactly when a (strict) majority-sized group coincides *)
MadZero == pc \in {"weights", "done"} /\ mad4 = 0 => \E v \in 0..MaxV : 2 * Cardinality({i \in 1..n : x[i] = v}) >= n
=============================================================================
