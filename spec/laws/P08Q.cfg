CONSTANTS G = "w"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS RelMeaning PredMeaning
CHECK_DEADLOCK FALSE
