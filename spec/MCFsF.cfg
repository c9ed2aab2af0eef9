SPECIFICATION FairSpec
CONSTANTS T = {1, 2} W = 2 Ops = 2 Bad = "none"
INVARIANTS Told Distinct IsTree Sound
PROPERTY Answered
CHECK_DEADLOCK FALSE
