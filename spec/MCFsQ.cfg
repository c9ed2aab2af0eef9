SPECIFICATION Spec
CONSTANTS T = {1, 2} W = 2 Ops = 3 Bad = "none"
INVARIANTS Told Distinct IsTree Sound
CHECK_DEADLOCK FALSE
