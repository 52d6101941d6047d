------------------------------ MODULE C05_Design ------------------------------
(* The Croux-Rousseeuw O(n log n) search for the k-th smallest pairwise        *)
(* difference, as the code performs it: rows of the matrix y_i - y_j carry an  *)
(* interval left..right, the weighted median of the row middles is tried, and  *)
(* one side of every row is cut. Explored for every small integer sample.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxV
VARIABLES y, left, right, nL, nR, pc, res
vars == <<y, left, right, nL, nR, pc, res>>
n == Len(y)
H == n \div 2 + 1
K == (H * (H - 1)) \div 2
KNew == K + (n * (n + 1)) \div 2
SumF(f) == LET F[k \in 0..n] == IF k = 0 THEN 0 ELSE F[k-1] + f[k] IN F[n]
(* number of pairs i<j with difference < d, <= d *)
Pairs == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Lt(d) == Cardinality({p \in Pairs : y[p[2]] - y[p[1]] < d})
Le(d) == Cardinality({p \in Pairs : y[p[2]] - y[p[1]] <= d})
IsKth(d) == Lt(d) < K /\ K <= Le(d)
W == [i \in 1..n |-> right[i] - left[i] + 1]
(* middle entry of row i; a row of weight 0 may point just outside (index wraps) *)
Mid == [i \in 1..n |-> LET jh == left[i] + W[i] \div 2 k == n - jh + 1 IN y[i] - y[IF k < 1 THEN n ELSE k]]
WLt(t) == LET F[k \in 0..n] == IF k = 0 THEN 0 ELSE F[k-1] + (IF Mid[k] < t THEN W[k] ELSE 0) IN F[n]
WLe(t) == LET F[k \in 0..n] == IF k = 0 THEN 0 ELSE F[k-1] + (IF Mid[k] <= t THEN W[k] ELSE 0) IN F[n]
WTot == SumF(W)
Trials == {Mid[k] : k \in 1..n}
IsWMed(t) == 2 * WLt(t) <= WTot /\ 2 * WLe(t) > WTot
P(t) == [i \in 1..n |-> Cardinality({j \in 1..n : y[i] - y[j] < t})]
Q(t) == [i \in 1..n |-> Cardinality({j \in 1..n : y[i] - y[j] <= t}) + 1]

Init == y = <<>> /\ left = <<>> /\ right = <<>> /\ nL = 0 /\ nR = 0 /\ pc = "build" /\ res = -1
Build == /\ pc = "build" /\ n < MaxN
         /\ \E v \in 0..MaxV : v >= (IF y = <<>> THEN 0 ELSE y[n]) /\ y' = Append(y, v)
         /\ UNCHANGED <<left, right, nL, nR, pc, res>>
Start == /\ pc = "build" /\ n >= 2
         /\ left' = [i \in 1..n |-> n + 2 - i] /\ right' = [i \in 1..n |-> n]
         /\ nL' = (n * (n + 1)) \div 2 /\ nR' = n * n /\ pc' = "loop" /\ UNCHANGED <<y, res>>
CutRight == /\ pc = "loop" /\ nR - nL > n
            /\ \E t \in Trials : IsWMed(t) /\ KNew <= SumF(P(t)) /\ right' = P(t) /\ nR' = SumF(P(t))
            /\ UNCHANGED <<y, left, nL, pc, res>>
CutLeft == /\ pc = "loop" /\ nR - nL > n
           /\ \E t \in Trials : IsWMed(t) /\ KNew > SumF(P(t)) /\ KNew > SumF(Q(t)) - n /\ left' = Q(t) /\ nL' = SumF(Q(t)) - n
           /\ UNCHANGED <<y, right, nR, pc, res>>
Found == /\ pc = "loop" /\ nR - nL > n
         /\ \E t \in Trials : IsWMed(t) /\ KNew > SumF(P(t)) /\ KNew <= SumF(Q(t)) - n /\ res' = t
         /\ pc' = "done" /\ UNCHANGED <<y, left, right, nL, nR>>
(* the remaining candidates, row by row *)
Rest == {<<i, j>> \in (2..n) \X (1..n) : left[i] <= j /\ j <= right[i]}
RVal(p) == y[p[1]] - y[n - p[2] + 1]
Collect == /\ pc = "loop" /\ nR - nL <= n
           /\ \E p \in Rest : LET d == RVal(p) IN
                /\ Cardinality({q \in Rest : RVal(q) < d}) < KNew - nL
                /\ KNew - nL <= Cardinality({q \in Rest : RVal(q) <= d})
                /\ res' = d
           /\ pc' = "done" /\ UNCHANGED <<y, left, right, nL, nR>>
Next == Build \/ Start \/ CutRight \/ CutLeft \/ Found \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(CutRight \/ CutLeft \/ Found \/ Collect)

Correct == pc = "done" => IsKth(res)
(* the target stays between the bounds, so it is never cut away *)
Bracketed == pc = "loop" => nL < KNew /\ KNew <= nR
WMedianExists == pc = "loop" /\ nR - nL > n => \E t \in Trials : IsWMed(t)
KMajority == n >= 2 => K >= 1 /\ K <= Cardinality(Pairs)
(* each pass cuts something, so the loop ends *)
Terminates == (pc = "loop") ~> (pc = "done")
Shrinks == [][pc = "loop" /\ pc' = "loop" => nR' - nL' < nR - nL]_vars
=============================================================================
