SPECIFICATION Spec
CONSTANTS K = 6
MaxFits = 12
Staged = TRUE
Checked = TRUE
INVARIANTS NeverAnswersUnfitted NothingStoredEarly
CHECK_DEADLOCK FALSE
