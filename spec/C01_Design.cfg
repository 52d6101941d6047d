SPECIFICATION Spec
CONSTANTS MaxN = 30
MaxP = 5
MaxK = 3
INVARIANTS Majority EnoughForCovariance Overlap PartsCoverAll PartHValid Admissible Monotone IntExact FullIsAll
CHECK_DEADLOCK FALSE
