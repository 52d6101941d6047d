SPECIFICATION Spec
CONSTANTS P = 4
MaxV = 4
Req = {0, 1, 2, 4}
INVARIANTS AtLeastOne Minimal AllMeansRank NeverMoreThanRequested LengthsAgree
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
