CONSTANTS G = "u"
 Fns = {"add","mul","div"}
SPECIFICATION Spec
INVARIANTS ConvMeaning DoubleRounding
CHECK_DEADLOCK FALSE
