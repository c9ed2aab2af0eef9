CONSTANTS Kids = {1, 2, 3, 4}
  Total = 3
  Cap = 2
  Chunk = 2
  Slots = 3
  Bad = "none"
SPECIFICATION Spec
INVARIANTS TypeOK InOrder Reported
PROPERTY Ends
CHECK_DEADLOCK FALSE
