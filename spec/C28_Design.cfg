SPECIFICATION Spec
CONSTANTS N = 3
P = 2
MaxOps = 5
OwnCopy = TRUE
SameZoom = TRUE
INVARIANTS Sized ShowsFit SameCell ModelKept
CHECK_DEADLOCK FALSE
