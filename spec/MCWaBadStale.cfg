SPECIFICATION Spec
CONSTANTS Descs = {1, 2} Dirs = {1} Changes = 1 Piece = 1 Renew = 2 Bad = "Stale"
INVARIANTS InOrder Kept
PROPERTY AllReported
CHECK_DEADLOCK FALSE
