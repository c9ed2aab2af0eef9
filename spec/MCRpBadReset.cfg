SPECIFICATION Spec
CONSTANTS Others = {1,2} S = 2 B = 3 Page = 2 CountIn = TRUE Wait = TRUE Reset = FALSE Once = TRUE Clear = TRUE
INVARIANTS Distinct InUse
CHECK_DEADLOCK FALSE
