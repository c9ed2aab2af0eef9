SPECIFICATION Spec
CONSTANTS Senders = {"m", "p"} Per = 2 TableLocked = TRUE Keep = TRUE PushLocked = TRUE StoreBack = FALSE Touch = FALSE
INVARIANTS NoUse Once Kept Ids
PROPERTY Answered
CHECK_DEADLOCK FALSE
