SPECIFICATION Spec
CONSTANTS N = 6
MaxX = 3
MaxY = 2
INVARIANTS Equivariant ExactFit Unique
CHECK_DEADLOCK FALSE
