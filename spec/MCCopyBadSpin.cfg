SPECIFICATION Spec
CONSTANTS N = 6 Bad = "Spin"
INVARIANTS Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
