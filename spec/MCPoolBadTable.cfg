SPECIFICATION Spec
CONSTANTS Senders = {"m", "p"} Per = 2 TableLocked = FALSE Keep = TRUE PushLocked = TRUE StoreBack = FALSE Touch = FALSE
INVARIANTS NoUse Once Kept Ids
CHECK_DEADLOCK FALSE
