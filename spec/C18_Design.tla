------------------------------ MODULE C18_Design ------------------------------
(* Minimum-determinant subsets under the generators of the affine group: every *)
(* small integer data set, every generator. The set of optimal subsets is      *)
(* carried along exactly and the covariances transform as A C A'.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, H, MaxV
VARIABLES x, y, op, pc
vars == <<x, y, op, pc>>
D == 1..2
Subsets(k) == {T \in SUBSET (1..k) : Cardinality(T) = H}
RECURSIVE SumOver(_, _)
SumOver(T, f) == IF T = {} THEN 0 ELSE LET m == CHOOSE i \in T : TRUE IN f[m] + SumOver(T \ {m}, f)
S1(z, T, a) == SumOver(T, [i \in T |-> z[i][a]])
Cv(z, T, a, b) == H * SumOver(T, [i \in T |-> z[i][a] * z[i][b]]) - S1(z, T, a) * S1(z, T, b)
Det(z, T) == Cv(z, T, 1, 1) * Cv(z, T, 2, 2) - Cv(z, T, 1, 2) * Cv(z, T, 1, 2)
Best(z) == LET dd == [T \in Subsets(Len(z)) |-> Det(z, T)] IN {T \in DOMAIN dd : \A U \in DOMAIN dd : dd[T] <= dd[U]}
Ops == {"shift", "scale", "flip", "cols", "shear", "rows"}
Img(row, o) == CASE o = "shift" -> <<row[1] + 3, row[2] - 2>>
                 [] o = "scale" -> <<2 * row[1], row[2]>>
                 [] o = "flip" -> <<0 - row[1], row[2]>>
                 [] o = "cols" -> <<row[2], row[1]>>
                 [] o = "shear" -> <<row[1] + row[2], row[2]>>
                 [] OTHER -> row
Fwd(i, o) == IF o = "rows" THEN (i % N) + 1 ELSE i       \* where row i of x sits in y
Build == /\ pc = "build" /\ Len(x) < N
         /\ \E row \in (0..MaxV) \X (0..MaxV) : (IF x = <<>> THEN TRUE ELSE x[Len(x)][1] <= row[1]) /\ x' = Append(x, row)
         /\ UNCHANGED <<y, op, pc>>
Transform == /\ pc = "build" /\ Len(x) = N /\ op' \in Ops /\ pc' = "done" /\ UNCHANGED x
             /\ y' = [k \in 1..N |-> Img(x[CHOOSE i \in 1..N : Fwd(i, op') = k], op')]
Init == x = <<>> /\ y = <<>> /\ op = "none" /\ pc = "build"
Next == Build \/ Transform
Spec == Init /\ [][Next]_vars
Moved == pc = "done"
Carry(T) == {Fwd(i, op) : i \in T}
OptimaCarried == Moved => Best(y) = {Carry(T) : T \in Best(x)}
Factor == IF op = "scale" THEN 4 ELSE 1
DeterminantsScale == Moved => \A T \in Subsets(N) : Det(y, Carry(T)) = Factor * Det(x, T)
CovarianceCarried == Moved => \A T \in Subsets(N) :
   LET c(a, b) == Cv(x, T, a, b) e(a, b) == Cv(y, Carry(T), a, b) IN
   CASE op = "scale" -> e(1, 1) = 4 * c(1, 1) /\ e(1, 2) = 2 * c(1, 2)
     [] op = "flip" -> e(1, 1) = c(1, 1) /\ e(1, 2) = 0 - c(1, 2)
     [] op = "cols" -> e(1, 1) = c(2, 2) /\ e(1, 2) = c(1, 2)
     [] op = "shear" -> e(1, 1) = c(1, 1) + 2 * c(1, 2) + c(2, 2) /\ e(1, 2) = c(1, 2) + c(2, 2)
     [] OTHER -> \A a, b \in D : e(a, b) = c(a, b)
=============================================================================
