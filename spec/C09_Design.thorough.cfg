SPECIFICATION Spec
CONSTANTS N = 6
H = 4
MaxX = 3
MaxY = 4
INVARIANTS NeverUp FixedPoint ExactFit Bounded
CHECK_DEADLOCK FALSE
