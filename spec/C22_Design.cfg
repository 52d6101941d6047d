SPECIFICATION Spec
CONSTANTS K = 3
MaxFits = 3
Staged = TRUE
Checked = TRUE
INVARIANTS NeverAnswersUnfitted NothingStoredEarly
CHECK_DEADLOCK FALSE
