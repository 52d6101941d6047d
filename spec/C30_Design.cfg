SPECIFICATION Spec
CONSTANTS Levels = {10, 20, 30}
Verbs = {10, 20, 30, 60}
Len_ = 3
Draws = FALSE
Guards = FALSE
Leaks = FALSE
INVARIANTS SameAnswers SilentWhenAsked MoreIsShownLower
CHECK_DEADLOCK FALSE
