------------------------------ MODULE C27_Design ------------------------------
(* The weighted-median search: a trial value (the middle order statistic of the*)
(* candidates), then everything on the wrong side of it is discarded while the *)
(* weight discarded below is carried along. All small samples with weights.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxV, MaxW
VARIABLES x, w, cand, rest, res
vars == <<x, w, cand, rest, res>>
RECURSIVE SumW(_, _)
SumW(ww, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE k \in S : TRUE IN ww[i] + SumW(ww, S \ {i})
Total == SumW(w, 1..N)
(* the k-th smallest candidate value *)
Trial == LET k == (Cardinality(cand) + 1) \div 2 IN
  CHOOSE v \in {x[i] : i \in cand} : Cardinality({i \in cand : x[i] < v}) < k /\ k <= Cardinality({i \in cand : x[i] <= v})
Less == {i \in cand : x[i] < Trial}
Same == {i \in cand : x[i] = Trial}
Init == /\ x \in {s \in [1..N -> 0..MaxV] : \A i \in 1..(N - 1) : s[i] <= s[i + 1]} /\ w \in [1..N -> 0..MaxW] /\ SumW(w, 1..N) > 0
        /\ cand = 1..N /\ rest = 0 /\ res = -1
Running == res = -1 /\ Cardinality(cand) > 1
GoLeft == /\ Running /\ 2 * (rest + SumW(w, Less)) > Total /\ cand' = Less /\ UNCHANGED <<x, w, rest, res>>
Found == /\ Running /\ 2 * (rest + SumW(w, Less)) <= Total /\ 2 * (rest + SumW(w, Less) + SumW(w, Same)) > Total
         /\ res' = Trial /\ UNCHANGED <<x, w, cand, rest>>
GoRight == /\ Running /\ 2 * (rest + SumW(w, Less) + SumW(w, Same)) <= Total
           /\ cand' = cand \ (Less \cup Same) /\ rest' = rest + SumW(w, Less) + SumW(w, Same) /\ UNCHANGED <<x, w, res>>
Last == /\ res = -1 /\ Cardinality(cand) = 1 /\ res' = x[CHOOSE i \in cand : TRUE] /\ UNCHANGED <<x, w, cand, rest>>
Next == GoLeft \/ Found \/ GoRight \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverEmpty == cand # {}
CarriedWeight == rest = SumW(w, {i \in 1..N : \A j \in cand : x[i] < x[j]})
(* the answer lies among the candidates at every moment *)
AnswerKept == res = -1 => \E i \in cand : 2 * SumW(w, {j \in 1..N : x[j] < x[i]}) <= Total /\ 2 * SumW(w, {j \in 1..N : x[j] > x[i]}) <= Total
Splits == res # -1 => 2 * SumW(w, {j \in 1..N : x[j] < res}) <= Total /\ 2 * SumW(w, {j \in 1..N : x[j] > res}) <= Total
HighMedian == res # -1 => 2 * SumW(w, {j \in 1..N : x[j] > res}) < Total
Terminates == <>(res # -1)
=============================================================================
