SPECIFICATION Spec
CONSTANTS N = 6 Bad = "Twice"
INVARIANTS Same
CHECK_DEADLOCK FALSE
