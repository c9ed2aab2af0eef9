SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1}
 MaxB = 2
 MaxOps = 6
 Kinds <- KFew
 UseFin = {TRUE}
 UseGuard = FALSE
 UsePtr = FALSE
 SharedCtx = FALSE
 TwiceIf = TRUE
 StopNull = FALSE
 ThreadErr = FALSE
