SPECIFICATION Spec
CONSTANTS N = 5
H = 4
G = 3
INVARIANTS NeverUp FixedPoint Size GlobalIsFixed Bounded
CHECK_DEADLOCK FALSE
