SPECIFICATION Spec
CONSTANTS Senders = {"m", "p", "q"} Per = 2 TableLocked = TRUE Keep = TRUE PushLocked = TRUE StoreBack = FALSE Touch = FALSE
INVARIANTS NoUse Once Kept Ids
CHECK_DEADLOCK FALSE
