CONSTANTS G = "u"
 Fns = {"neg","pos","recip","sqr","sqrt","add","sub","mul","div"}
SPECIFICATION Spec
INVARIANTS UnaryTight BinaryTight DoubleRounding Isotonic DecDefined DecBounded
CHECK_DEADLOCK FALSE
