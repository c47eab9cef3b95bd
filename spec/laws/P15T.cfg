CONSTANTS G = "u"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS PairMeaning
CHECK_DEADLOCK FALSE
