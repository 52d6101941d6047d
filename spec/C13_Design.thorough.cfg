SPECIFICATION Spec
CONSTANTS N = 6
H = 4
Q = 5
Top = 10
MaxSteps = 4
INVARIANTS Consistent MissingHasWeightZero EnoughCells WeightsOptimal ExactMoveNeverRejected
PROPERTIES NotAboveStart Terminates
CHECK_DEADLOCK FALSE
