SPECIFICATION Spec
CONSTANTS Thieves = {1,2} MaxPush = 3 MaxTake = 2 MaxSteal = 2 Size0 = 1 First = 1 TopEarly = TRUE Fence = TRUE FreeOld = FALSE
INVARIANTS Clean NoneLost
CHECK_DEADLOCK FALSE
