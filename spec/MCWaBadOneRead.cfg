SPECIFICATION Spec
CONSTANTS Descs = {1} Dirs = {1, 2} Changes = 3 Piece = 1 Renew = 1 Bad = "OneRead"
INVARIANTS InOrder Kept
PROPERTY AllReported
CHECK_DEADLOCK FALSE
