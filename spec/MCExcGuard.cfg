SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1, 2}
 MaxB = 2
 MaxOps = 7
 Kinds <- KAny
 UseFin = {FALSE}
 UseGuard = TRUE
 UsePtr = FALSE
 SharedCtx = FALSE
 TwiceIf = FALSE
 StopNull = FALSE
 ThreadErr = FALSE
