------------------------------ MODULE C02_Design ------------------------------
(* Concentration steps on planar integer data, with exact arithmetic: sums are *)
(* kept unnormalised, so that the covariance of a set T of h points is         *)
(* (h*SS - S S')/h^2 and squared distances compare as integers. Every multiset *)
(* of N grid points and every start of 3 points is explored.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, H, G
VARIABLES pts, T, prev, steps, pc
vars == <<pts, T, prev, steps, pc>>
Codes == 0..(G * G - 1)
PX(c) == c \div G
PY(c) == c % G
SumOver(S, f(_)) == LET F[R \in SUBSET S] == IF R = {} THEN 0 ELSE LET m == CHOOSE q \in R : TRUE IN f(m) + F[R \ {m}] IN F[S]
k(S) == Cardinality(S)
SX(S) == SumOver(S, LAMBDA i : PX(pts[i]))
SY(S) == SumOver(S, LAMBDA i : PY(pts[i]))
A(S) == k(S) * SumOver(S, LAMBDA i : PX(pts[i]) * PX(pts[i])) - SX(S) * SX(S)
B(S) == k(S) * SumOver(S, LAMBDA i : PX(pts[i]) * PY(pts[i])) - SX(S) * SY(S)
D(S) == k(S) * SumOver(S, LAMBDA i : PY(pts[i]) * PY(pts[i])) - SY(S) * SY(S)
Det(S) == A(S) * D(S) - B(S) * B(S)
(* squared Mahalanobis distance of point i to S, times a positive constant *)
Dists(S) == LET a == A(S) b == B(S) d == D(S) sx == SX(S) sy == SY(S) m == k(S) IN
  [i \in 1..N |-> LET u == m * PX(pts[i]) - sx v == m * PY(pts[i]) - sy IN d * u * u - 2 * b * u * v + a * v * v]
(* T' is a set of H observations none of which is farther than one left out *)
ClosestSets(S) == LET d == Dists(S) IN {R \in SUBSET (1..N) : k(R) = H /\ \A i \in R, j \in (1..N) \ R : d[i] <= d[j]}

Init == pts = <<>> /\ T = {} /\ prev = -1 /\ steps = 0 /\ pc = "build"
Build == /\ pc = "build" /\ Len(pts) < N
         /\ \E c \in Codes : c >= (IF pts = <<>> THEN 0 ELSE pts[Len(pts)]) /\ pts' = Append(pts, c)
         /\ UNCHANGED <<T, prev, steps, pc>>
Start == /\ pc = "build" /\ Len(pts) = N
         /\ \E S \in SUBSET (1..N) : k(S) = 3 /\ Det(S) > 0 /\ T' \in ClosestSets(S)
         /\ pc' = "concentrate" /\ UNCHANGED <<pts, prev, steps>>
Step == /\ pc = "concentrate" /\ Det(T) > 0 /\ (prev = -1 \/ Det(T) < prev)
        /\ prev' = Det(T) /\ T' \in ClosestSets(T) /\ steps' = steps + 1 /\ UNCHANGED <<pts, pc>>
Singular == pc = "concentrate" /\ Det(T) = 0 /\ pc' = "exact" /\ UNCHANGED <<pts, T, prev, steps>>
Converged == pc = "concentrate" /\ Det(T) > 0 /\ prev # -1 /\ Det(T) >= prev /\ pc' = "done" /\ UNCHANGED <<pts, T, prev, steps>>
Next == Build \/ Start \/ Step \/ Singular \/ Converged
Spec == Init /\ [][Next]_vars

(* a concentration step never raises the determinant *)
NeverUp == pc \in {"concentrate", "done"} /\ prev # -1 => Det(T) <= prev
(* when it stops, the set is one of its own closest sets; with ties another     *)
(* closest set may be better, without ties there is no other                   *)
FixedPoint == pc = "done" => T \in ClosestSets(T) /\ (k(ClosestSets(T)) = 1 => \A R \in ClosestSets(T) : Det(R) >= Det(T))
Size == pc \in {"concentrate", "done"} => k(T) = H
(* the set with the smallest determinant of all is a fixed point itself *)
GlobalIsFixed == pc = "build" /\ Len(pts) = N =>
  LET All == {R \in SUBSET (1..N) : k(R) = H}
      m == CHOOSE R \in All : \A Q \in All : Det(R) <= Det(Q)
  IN Det(m) > 0 => \A R \in ClosestSets(m) : Det(R) = Det(m)
Bounded == steps <= 6
=============================================================================
