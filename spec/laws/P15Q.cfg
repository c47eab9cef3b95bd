CONSTANTS G = "w"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS PairMeaning
CHECK_DEADLOCK FALSE
