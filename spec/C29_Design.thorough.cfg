SPECIFICATION Spec
CONSTANTS Slots = 3
Cfgs = {1, 2}
Data = {1, 2}
MaxOps = 7
DeepCopies = TRUE
CloneFresh = TRUE
KeepsParams = TRUE
FitInPlace = TRUE
INVARIANTS ParamsAreThose AnswersAreThose
CHECK_DEADLOCK FALSE
