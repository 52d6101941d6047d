SPECIFICATION Spec
CONSTANTS N = 5
MaxX = 3
MaxY = 2
INVARIANTS Equivariant ExactFit Unique
CHECK_DEADLOCK FALSE
