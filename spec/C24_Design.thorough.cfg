SPECIFICATION Spec
CONSTANTS P = 5
MaxV = 7
Req = {0, 1, 2, 4}
INVARIANTS AtLeastOne Minimal AllMeansRank NeverMoreThanRequested LengthsAgree
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
