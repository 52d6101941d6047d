SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxV = 3
INVARIANTS MedianEquivariant MadEquivariant KthEquivariant MinVarEquivariant
CHECK_DEADLOCK FALSE
