SPECIFICATION Spec
CONSTANTS Senders = {"m", "p"} Per = 2 TableLocked = TRUE Keep = FALSE PushLocked = TRUE StoreBack = FALSE Touch = FALSE
INVARIANTS NoUse Once Kept Ids
CHECK_DEADLOCK FALSE
