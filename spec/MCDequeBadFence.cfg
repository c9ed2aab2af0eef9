SPECIFICATION Spec
CONSTANTS Thieves = {1} MaxPush = 3 MaxTake = 2 MaxSteal = 2 Size0 = 2 First = 1 TopEarly = FALSE Fence = FALSE FreeOld = FALSE
INVARIANTS Clean NoneLost
CHECK_DEADLOCK FALSE
