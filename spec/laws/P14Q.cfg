CONSTANTS G = "w"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS CancelMeaning
CHECK_DEADLOCK FALSE
