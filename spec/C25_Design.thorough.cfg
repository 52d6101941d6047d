SPECIFICATION Spec
CONSTANTS N = 8
MaxV = 7
INVARIANTS Divides Bounded Antisymmetric FencesMirror SymmetricIsZero SkewMovesFences PairsBothSides
CHECK_DEADLOCK FALSE
