------------------------------ MODULE C07_Design ------------------------------
(* Every integer sample, every transform a*x+b and every adjacent swap: the    *)
(* building blocks of the univariate estimators commute with them exactly.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxV
VARIABLES x, y, a, b, pc
vars == <<x, y, a, b, pc>>
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Insert(_, _)
Insert(s, v) == IF s = <<>> THEN <<v>> ELSE IF v <= s[1] THEN <<v>> \o s ELSE <<s[1]>> \o Insert(Tail(s), v)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), s[1])
Med2(s) == LET t == Sort(s) k == Len(s) IN IF k % 2 = 1 THEN 2 * t[(k + 1) \div 2] ELSE t[k \div 2] + t[k \div 2 + 1]
Mad4(s) == LET m == Med2(s) IN Med2([i \in 1..Len(s) |-> Abs(2 * s[i] - m)])
Kth(s) == LET k == Len(s) h == k \div 2 + 1 q == (h * (h - 1)) \div 2
              D == {<<i, j>> \in (1..k) \X (1..k) : i < j}
              V == {Abs(s[p[1]] - s[p[2]]) : p \in D}
          IN CHOOSE v \in V : Cardinality({p \in D : Abs(s[p[1]] - s[p[2]]) < v}) < q /\ q <= Cardinality({p \in D : Abs(s[p[1]] - s[p[2]]) <= v})
SumS(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k-1] + s[k] IN F[Len(s)]
SqS(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k-1] + s[k] * s[k] IN F[Len(s)]
Vr(s) == Len(s) * SqS(s) - SumS(s) * SumS(s)
MinVar(s) == LET t == Sort(s) h == Len(s) \div 2 + 1 V == {Vr(SubSeq(t, i, i + h - 1)) : i \in 1..(Len(s) - h + 1)} IN CHOOSE v \in V : \A u \in V : v <= u

Init == x = <<>> /\ y = <<>> /\ a = 1 /\ b = 0 /\ pc = "build"
Build == pc = "build" /\ Len(x) < MaxN /\ (\E v \in 0..MaxV : x' = Append(x, v)) /\ UNCHANGED <<y, a, b, pc>>
Transform == /\ pc = "build" /\ Len(x) >= 2 /\ a' \in {-3, -1, 2} /\ b' \in {0, 5}
             /\ y' = [i \in 1..Len(x) |-> a' * x[i] + b'] /\ pc' = "swap" /\ UNCHANGED x
Swap == /\ pc = "swap" /\ \E i \in 1..(Len(y) - 1) : y' = [y EXCEPT ![i] = y[i+1], ![i+1] = y[i]]
        /\ pc' = "swapped" /\ UNCHANGED <<x, a, b>>
Next == Build \/ Transform \/ Swap
Spec == Init /\ [][Next]_vars
Moved == pc \in {"swap", "swapped"}
MedianEquivariant == Moved => Med2(y) = a * Med2(x) + 2 * b
MadEquivariant == Moved => Mad4(y) = Abs(a) * Mad4(x)
KthEquivariant == Moved => Kth(y) = Abs(a) * Kth(x)
MinVarEquivariant == Moved => MinVar(y) = a * a * MinVar(x)
=============================================================================
