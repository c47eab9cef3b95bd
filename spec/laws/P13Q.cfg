CONSTANTS G = "u"
 Fns = {}
SPECIFICATION Spec
INVARIANTS ConvMeaning
CHECK_DEADLOCK FALSE
