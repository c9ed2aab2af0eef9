SPECIFICATION Spec
CONSTANTS Senders = {"m", "p"} Per = 2 TableLocked = TRUE Keep = TRUE PushLocked = TRUE StoreBack = TRUE Touch = FALSE
INVARIANTS NoUse Once Kept Ids
CHECK_DEADLOCK FALSE
