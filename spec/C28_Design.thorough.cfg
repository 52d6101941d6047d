SPECIFICATION Spec
CONSTANTS N = 5
P = 4
MaxOps = 7
OwnCopy = TRUE
SameZoom = TRUE
INVARIANTS Sized ShowsFit SameCell ModelKept
CHECK_DEADLOCK FALSE
