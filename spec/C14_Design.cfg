SPECIFICATION Spec
CONSTANTS N = 3
P = 2
Frames = 2
Half = 2
Orders = {"automatic", "rows", "columns"}
INVARIANTS FunctionOfFrame SurvivorsRespectLast CompleteFramesKept
PROPERTY OrderKept
CHECK_DEADLOCK FALSE
