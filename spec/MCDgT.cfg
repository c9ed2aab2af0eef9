SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Tasks = {11, 12, 13}
  PerClient = 2
  Sizes = {0, 3}
  Room = 2
  Bad = "None"
INVARIANTS Own Packet
PROPERTY Answered
CHECK_DEADLOCK FALSE
