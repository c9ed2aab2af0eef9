SPECIFICATION Spec
CONSTANTS N = 6 Bad = "none"
INVARIANTS Same Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
