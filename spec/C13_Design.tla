------------------------------ MODULE C13_Design ------------------------------
(* The cellwise C-step iteration on one column of small integers: weights are  *)
(* chosen given the centre, then the centre moves (anywhere: truncation and    *)
(* other columns make the real move inexact), and the step is undone as a      *)
(* whole when the penalised objective grew. The centre is kept in half units.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, H, Q, Top, MaxSteps
VARIABLES x, w, mu, obj, w1, mu1, steps, phase
vars == <<x, w, mu, obj, w1, mu1, steps, phase>>
NA == 99
Vals == {0, 1, 2, 5, NA}
Seen(s) == {i \in 1..N : s[i] # NA}
D(s, m, i) == (2 * s[i] - m) * (2 * s[i] - m)          \* 4 times the squared deviation
RECURSIVE SumD(_, _, _)
SumD(s, m, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE k \in S : TRUE IN D(s, m, i) + SumD(s, m, S \ {i})
Obj(s, m, W) == SumD(s, m, W) + Q * (N - Cardinality(W))
RankBelow(s, m, i) == Cardinality({k \in Seen(s) : D(s, m, k) < D(s, m, i) \/ (D(s, m, k) = D(s, m, i) /\ k < i)})
NewW(s, m) == LET good == {i \in Seen(s) : D(s, m, i) <= Q} IN
  IF Cardinality(good) >= H THEN good ELSE {i \in Seen(s) : RankBelow(s, m, i) < H}
Init == /\ x \in {s \in [1..N -> Vals] : (\A i \in 1..(N - 1) : s[i] <= s[i + 1]) /\ Cardinality(Seen(s)) >= H}
        /\ w = Seen(x) /\ mu \in 0..Top /\ obj = Obj(x, mu, Seen(x))
        /\ w1 = {} /\ mu1 = 0 /\ steps = 0 /\ phase = "weights"
Weights == /\ phase = "weights" /\ w1' = NewW(x, mu) /\ phase' = "centre" /\ UNCHANGED <<x, w, mu, obj, mu1, steps>>
Centre == /\ phase = "centre" /\ mu1' \in 0..Top /\ phase' = "compare" /\ UNCHANGED <<x, w, mu, obj, w1, steps>>
Reject == /\ phase = "compare" /\ Obj(x, mu1, w1) > obj /\ phase' = "done" /\ UNCHANGED <<x, w, mu, obj, w1, mu1, steps>>
Accept == /\ phase = "compare" /\ Obj(x, mu1, w1) <= obj
          /\ w' = w1 /\ mu' = mu1 /\ obj' = Obj(x, mu1, w1) /\ steps' = steps + 1
          /\ phase' = (IF mu1 = mu \/ steps + 1 = MaxSteps THEN "done" ELSE "weights")
          /\ UNCHANGED <<x, w1, mu1>>
Next == Weights \/ Centre \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* what is returned belongs together *)
Consistent == obj = Obj(x, mu, w)
NotAboveStart == [][obj' <= obj]_vars
MissingHasWeightZero == w \subseteq Seen(x)
EnoughCells == H <= Cardinality(w)
(* the greedy choice is the best admissible set of weights for this centre *)
WeightsOptimal == phase = "centre" => \A W \in SUBSET Seen(x) : Cardinality(W) >= H => Obj(x, mu, w1) <= Obj(x, mu, W)
(* so with the best centre the objective never grows, and rejection needs an inexact move *)
ExactMoveNeverRejected == (phase = "compare" /\ \A m \in 0..Top : Obj(x, mu1, w1) <= Obj(x, m, w1)) => Obj(x, mu1, w1) <= obj
Terminates == <>(phase = "done")
=============================================================================
