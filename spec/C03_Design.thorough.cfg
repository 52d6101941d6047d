SPECIFICATION Spec
CONSTANTS N = 8
MaxV = 7
CutNum = 5
INVARIANTS OptionsObeyed MajorityKept SubsetSurvives NeverEmpty
CHECK_DEADLOCK FALSE
