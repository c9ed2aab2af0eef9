SPECIFICATION Spec
CONSTANTS Others = {1,2} S = 2 B = 2 Page = 1 CountIn = TRUE Wait = TRUE Reset = TRUE Once = TRUE Clear = FALSE
INVARIANTS Distinct InUse
CHECK_DEADLOCK FALSE
