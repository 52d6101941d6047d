------------------------------ MODULE C09_Design ------------------------------
(* C-steps of least trimmed squares for a line through the origin on integer   *)
(* data, in exact arithmetic: the slope of a set T is b(T)/a(T), residuals      *)
(* compare through |a y - b x|, losses SSR = (a c - b^2)/a by cross             *)
(* multiplication. Every sample of N points and every single-point start.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, H, MaxX, MaxY
VARIABLES pts, T, prevN, prevD, steps, pc
vars == <<pts, T, prevN, prevD, steps, pc>>
Abs(v) == IF v < 0 THEN -v ELSE v
SumOver(S, f(_)) == LET F[R \in SUBSET S] == IF R = {} THEN 0 ELSE LET m == CHOOSE q \in R : TRUE IN f(m) + F[R \ {m}] IN F[S]
Px(i) == 1 + pts[i] \div (MaxY + 1)
Py(i) == pts[i] % (MaxY + 1)
A(S) == SumOver(S, LAMBDA i : Px(i) * Px(i))
B(S) == SumOver(S, LAMBDA i : Px(i) * Py(i))
C(S) == SumOver(S, LAMBDA i : Py(i) * Py(i))
SSRn(S) == A(S) * C(S) - B(S) * B(S)      \* over A(S)
Res(S) == LET a == A(S) b == B(S) IN [i \in 1..N |-> Abs(a * Py(i) - b * Px(i))]
Closest(S) == LET d == Res(S) IN {R \in SUBSET (1..N) : Cardinality(R) = H /\ \A i \in R, j \in (1..N) \ R : d[i] <= d[j]}
Init == pts = <<>> /\ T = {} /\ prevN = -1 /\ prevD = 1 /\ steps = 0 /\ pc = "build"
Build == /\ pc = "build" /\ Len(pts) < N
         /\ \E v \in 0..(MaxX * (MaxY + 1) - 1) : v >= (IF pts = <<>> THEN 0 ELSE pts[Len(pts)]) /\ pts' = Append(pts, v)
         /\ UNCHANGED <<T, prevN, prevD, steps, pc>>
Start == /\ pc = "build" /\ Len(pts) = N /\ \E i \in 1..N : T' \in Closest({i})
         /\ pc' = "concentrate" /\ UNCHANGED <<pts, prevN, prevD, steps>>
Lower == prevN = -1 \/ SSRn(T) * prevD < prevN * A(T)
Step == /\ pc = "concentrate" /\ Lower
        /\ prevN' = SSRn(T) /\ prevD' = A(T) /\ T' \in Closest(T) /\ steps' = steps + 1 /\ UNCHANGED <<pts, pc>>
Converged == pc = "concentrate" /\ ~Lower /\ pc' = "done" /\ UNCHANGED <<pts, T, prevN, prevD, steps>>
Next == Build \/ Start \/ Step \/ Converged
Spec == Init /\ [][Next]_vars
(* a C-step never raises the sum of the h smallest squared residuals *)
NeverUp == pc \in {"concentrate", "done"} /\ prevN # -1 => SSRn(T) * prevD <= prevN * A(T)
FixedPoint == pc = "done" => T \in Closest(T)
(* with h points exactly on one line through the origin the best start finds it *)
ExactFit == (pc = "build" /\ Len(pts) = N /\
  (\E R \in SUBSET (1..N) : Cardinality(R) = H /\ SSRn(R) = 0)) =>
  \E i \in 1..N : \E R \in Closest({i}) : SSRn(R) = 0
Bounded == steps <= 6
=============================================================================
