SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1, 2}
 MaxB = 2
 MaxOps = 5
 Kinds <- KAny
 UseFin = {FALSE}
 UseGuard = FALSE
 UsePtr = FALSE
 SharedCtx = TRUE
 TwiceIf = FALSE
 StopNull = FALSE
 ThreadErr = FALSE
