SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1}
 MaxB = 2
 MaxOps = 8
 Kinds <- KFew
 UseFin = {FALSE}
 UseGuard = FALSE
 UsePtr = FALSE
 SharedCtx = FALSE
 TwiceIf = FALSE
 StopNull = FALSE
 ThreadErr = TRUE
