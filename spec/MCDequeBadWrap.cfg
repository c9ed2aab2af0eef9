SPECIFICATION Spec
CONSTANTS Thieves = {1} MaxPush = 2 MaxTake = 2 MaxSteal = 2 Size0 = 2 First = 0 TopEarly = FALSE Fence = TRUE FreeOld = FALSE
INVARIANTS Clean NoneLost
CHECK_DEADLOCK FALSE
