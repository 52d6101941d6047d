SPECIFICATION Spec
CONSTANTS N = 4
MaxV = 3
MaxW = 2
INVARIANTS NeverEmpty CarriedWeight AnswerKept Splits HighMedian
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
