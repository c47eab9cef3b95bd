CONSTANTS G = "u"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS RelMeaning PredMeaning
CHECK_DEADLOCK FALSE
