CONSTANTS G = "t"
 Fns = {}
SPECIFICATION Spec
INVARIANTS NumMeaning
CHECK_DEADLOCK FALSE
