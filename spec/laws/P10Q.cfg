CONSTANTS G = "w"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS SetMeaning
CHECK_DEADLOCK FALSE
