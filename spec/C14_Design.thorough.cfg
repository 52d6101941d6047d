SPECIFICATION Spec
CONSTANTS N = 3
P = 3
Frames = 1
Half = 2
Orders = {"automatic", "rows", "columns"}
INVARIANTS FunctionOfFrame SurvivorsRespectLast CompleteFramesKept
PROPERTY OrderKept
CHECK_DEADLOCK FALSE
