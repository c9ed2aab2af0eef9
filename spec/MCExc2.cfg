SPECIFICATION Spec
INVARIANT Conform
INVARIANT Goes
CHECK_DEADLOCK FALSE
CONSTANTS
 Tasks = {1, 2}
 MaxB = 3
 MaxOps = 6
 Kinds <- KFew
 UseFin = {TRUE, FALSE}
 UseGuard = FALSE
 UsePtr = FALSE
 SharedCtx = FALSE
 TwiceIf = FALSE
 StopNull = FALSE
 ThreadErr = FALSE
