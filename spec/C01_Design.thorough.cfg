SPECIFICATION Spec
CONSTANTS MaxN = 80
MaxP = 8
MaxK = 5
INVARIANTS Majority EnoughForCovariance Overlap PartsCoverAll PartHValid Admissible Monotone IntExact FullIsAll
CHECK_DEADLOCK FALSE
