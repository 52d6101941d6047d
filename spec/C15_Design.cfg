SPECIFICATION Spec
CONSTANTS Targets = {0, 159, 164, 200, 210, 223, 254, 257, 261, 500}
MaxFits = 2
INVARIANTS LambdaIsOptimum OptimumInside EffectiveFromLastData BoxCoxOnlyPositive StandardisedOnce
PROPERTIES ConfigKept Terminates
CHECK_DEADLOCK FALSE
