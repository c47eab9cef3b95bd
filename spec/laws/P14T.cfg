CONSTANTS G = "u"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS CancelMeaning
CHECK_DEADLOCK FALSE
