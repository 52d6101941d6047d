SPECIFICATION Spec
CONSTANTS N = 7
M = 3
L = 50
V = 3
Bad = {0, 57, 1000}
Half = TRUE
Ranked = TRUE
INVARIANTS CentreKept ScaleKept WindowKept WindowMeanKept
CHECK_DEADLOCK FALSE
