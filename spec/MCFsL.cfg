SPECIFICATION Spec
CONSTANTS T = {1, 2, 3} W = 2 Ops = 1 Bad = "none"
INVARIANTS Told Distinct IsTree Sound
CHECK_DEADLOCK FALSE
