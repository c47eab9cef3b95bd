CONSTANTS G = "u"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS SetMeaning
CHECK_DEADLOCK FALSE
