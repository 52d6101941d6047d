SPECIFICATION Spec
CONSTANTS N = 5
H = 3
MaxV = 2
INVARIANTS OptimaCarried DeterminantsScale CovarianceCarried
CHECK_DEADLOCK FALSE
