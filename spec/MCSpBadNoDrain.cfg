CONSTANTS Kids = {1, 2}
  Total = 3
  Cap = 2
  Chunk = 2
  Slots = 2
  Bad = "NoDrain"
SPECIFICATION Spec
INVARIANTS TypeOK InOrder Reported
PROPERTY Ends
CHECK_DEADLOCK FALSE
