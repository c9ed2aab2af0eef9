SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1}
 MaxB = 2
 MaxOps = 6
 Kinds <- KAny
 UseFin = {FALSE}
 UseGuard = FALSE
 UsePtr = TRUE
 SharedCtx = FALSE
 TwiceIf = FALSE
 StopNull = TRUE
 ThreadErr = FALSE
