SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Tasks = {11, 12}
  PerClient = 1
  Sizes = {0, 1, 3}
  Room = 2
  Bad = "One"
INVARIANTS Own Packet
PROPERTY Answered
CHECK_DEADLOCK FALSE
