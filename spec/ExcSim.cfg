CONSTANTS Threads = {1, 2, 3}
 MCConds = {1, 2, 4, 8}
 Depth = 40
SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
