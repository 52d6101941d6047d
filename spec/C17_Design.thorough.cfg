SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxV = 2
Labels = {"a", "b"}
INVARIANTS Definition SymmetricC DiagonalNonNegative PSDminor ZeroVarianceIffConstant DistanceNonNegative
CHECK_DEADLOCK FALSE
