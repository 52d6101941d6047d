SPECIFICATION Spec
CONSTANTS N = 5
MaxV = 5
INVARIANTS Divides Bounded Antisymmetric FencesMirror SymmetricIsZero SkewMovesFences PairsBothSides
CHECK_DEADLOCK FALSE
