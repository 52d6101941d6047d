SPECIFICATION Spec
CONSTANTS MaxN = 6
MaxV = 4
INVARIANTS MedianEquivariant MadEquivariant KthEquivariant MinVarEquivariant
CHECK_DEADLOCK FALSE
