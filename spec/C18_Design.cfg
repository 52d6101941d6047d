SPECIFICATION Spec
CONSTANTS N = 4
H = 3
MaxV = 2
INVARIANTS OptimaCarried DeterminantsScale CovarianceCarried
CHECK_DEADLOCK FALSE
