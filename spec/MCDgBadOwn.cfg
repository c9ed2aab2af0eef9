SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Tasks = {11, 12}
  PerClient = 2
  Sizes = {0, 1, 3}
  Room = 2
  Bad = "Own"
INVARIANTS Own Packet
PROPERTY Answered
CHECK_DEADLOCK FALSE
