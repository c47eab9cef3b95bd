SPECIFICATION TSpec
CONSTANTS Threads = {1, 2, 3, 4, 5, 6, 7, 8}
 MCConds = {1, 2, 4, 8}
 Depth = 0
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
