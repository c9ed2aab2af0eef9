SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1}
 MaxB = 3
 MaxOps = 8
 Kinds <- KAll
 UseFin = {TRUE, FALSE}
 UseGuard = FALSE
 UsePtr = FALSE
 SharedCtx = FALSE
 TwiceIf = FALSE
 StopNull = FALSE
 ThreadErr = FALSE
