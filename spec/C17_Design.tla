------------------------------ MODULE C17_Design ------------------------------
(* A labelled table grows row by row and its scatter matrix is accumulated by  *)
(* position. Labels (possibly duplicate) never influence the moments; the      *)
(* accumulated matrix is symmetric, positive semidefinite and bounded by its   *)
(* diagonal, and rank-one row updates agree with the definition.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxV, Labels
VARIABLES x, lab, s1, s2, last
vars == <<x, lab, s1, s2, last>>
D == 1..2
Init == x = <<>> /\ lab = <<>> /\ s1 = [j \in D |-> 0] /\ s2 = [q \in D \X D |-> 0] /\ last = "none"
AddRow(row, l) == /\ Len(x) < MaxN
                  /\ x' = Append(x, row) /\ lab' = Append(lab, l)
                  /\ s1' = [j \in D |-> s1[j] + row[j]]
                  /\ s2' = [q \in D \X D |-> s2[q] + row[q[1]] * row[q[2]]] /\ last' = "add"
(* the same rows under other labels *)
Relabel(i, l) == /\ i <= Len(x) /\ lab[i] # l /\ lab' = [lab EXCEPT ![i] = l] /\ last' = "label" /\ UNCHANGED <<x, s1, s2>>
(* rows move together with their labels *)
SwapRows(i) == /\ i + 1 <= Len(x) /\ x' = [x EXCEPT ![i] = x[i+1], ![i+1] = x[i]]
               /\ lab' = [lab EXCEPT ![i] = lab[i+1], ![i+1] = lab[i]] /\ last' = "swap" /\ UNCHANGED <<s1, s2>>
Add == \E row \in [D -> 0..MaxV], l \in Labels : AddRow(row, l)
Rename == \E i \in 1..MaxN, l \in Labels : Relabel(i, l)
Swap == \E i \in 1..(MaxN - 1) : SwapRows(i)
Next == Add \/ Rename \/ Swap
Spec == Init /\ [][Next]_vars
n == Len(x)
(* n(n-1) times the sample covariance *)
C(a, b) == n * s2[<<a, b>>] - s1[a] * s1[b]
RECURSIVE SumRows(_, _, _)
SumRows(k, a, b) == IF k = 0 THEN 0 ELSE SumRows(k - 1, a, b) + (n * x[k][a] - s1[a]) * (n * x[k][b] - s1[b])
Definition == \A a, b \in D : n > 0 => SumRows(n, a, b) = n * C(a, b)
SymmetricC == C(1, 2) = C(2, 1)
DiagonalNonNegative == \A a \in D : C(a, a) >= 0
PSDminor == C(1, 1) * C(2, 2) - C(1, 2) * C(2, 1) >= 0
ZeroVarianceIffConstant == \A a \in D : (n > 0 /\ C(a, a) = 0) => \A i \in 1..n : x[i][a] = x[1][a]
(* squared Mahalanobis distances (times det) from the adjugate are non-negative: the precision is a positive form *)
Adj(u) == C(2, 2) * u[1] * u[1] - 2 * C(1, 2) * u[1] * u[2] + C(1, 1) * u[2] * u[2]
DistanceNonNegative == \A i \in 1..n : Adj([j \in D |-> n * x[i][j] - s1[j]]) >= 0
=============================================================================
