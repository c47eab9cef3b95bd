CONSTANTS G = "u"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS OverlapUnique OverlapConverse OverlapRel
CHECK_DEADLOCK FALSE
