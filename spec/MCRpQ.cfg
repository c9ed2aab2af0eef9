SPECIFICATION Spec
CONSTANTS Others = {1,2} S = 2 B = 2 Page = 2 CountIn = TRUE Wait = TRUE Reset = TRUE Once = TRUE Clear = TRUE
INVARIANTS Distinct InUse Places Lists
CHECK_DEADLOCK FALSE
