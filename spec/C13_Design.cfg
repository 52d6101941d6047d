SPECIFICATION Spec
CONSTANTS N = 4
H = 3
Q = 5
Top = 10
MaxSteps = 3
INVARIANTS Consistent MissingHasWeightZero EnoughCells WeightsOptimal ExactMoveNeverRejected
PROPERTIES NotAboveStart Terminates
CHECK_DEADLOCK FALSE
