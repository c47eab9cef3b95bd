CONSTANTS Threads = {1, 2}
 MCConds = {1, 4, 8}
 Depth = 0
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTIES Sticky Private Maskable CwdStable
VIEW View
CHECK_DEADLOCK FALSE
