SPECIFICATION Spec
CONSTANTS Thieves = {1,2} MaxPush = 4 MaxTake = 3 MaxSteal = 2 Size0 = 2 First = 1 TopEarly = FALSE Fence = TRUE FreeOld = FALSE
INVARIANTS Clean NoneLost
CHECK_DEADLOCK FALSE
