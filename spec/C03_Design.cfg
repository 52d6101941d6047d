SPECIFICATION Spec
CONSTANTS N = 6
MaxV = 6
CutNum = 5
INVARIANTS OptionsObeyed MajorityKept SubsetSurvives NeverEmpty
CHECK_DEADLOCK FALSE
