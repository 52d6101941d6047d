SPECIFICATION Spec
CONSTANTS N = 5
H = 3
MaxX = 2
MaxY = 4
INVARIANTS NeverUp FixedPoint ExactFit Bounded
CHECK_DEADLOCK FALSE
