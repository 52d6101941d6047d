SPECIFICATION Spec
CONSTANTS Slots = 2
Cfgs = {1, 2}
Data = {1, 2}
MaxOps = 5
DeepCopies = TRUE
CloneFresh = TRUE
KeepsParams = TRUE
FitInPlace = TRUE
INVARIANTS ParamsAreThose AnswersAreThose
CHECK_DEADLOCK FALSE
