SPECIFICATION Spec
CONSTANTS MaxN = 9
MaxV = 8
INVARIANTS Defined InRange HalfKept MadZero
CHECK_DEADLOCK FALSE
