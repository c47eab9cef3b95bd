SPECIFICATION TSpec
CONSTANTS Streams = {1, 2, 3, 4, 5, 6}
 MCFields = {}
 NVals = 0
 Depth = 0
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
