CONSTANTS G = "u"
 Fns = {}
SPECIFICATION Spec
INVARIANTS NumMeaning
CHECK_DEADLOCK FALSE
