CONSTANTS G = "t"
 Fns = {"sinh","cosh","tanh","asinh","acosh","atanh"}
SPECIFICATION Spec
INVARIANTS UnaryTight DoubleRounding Isotonic DecDefined DecContinuous DecBounded
CHECK_DEADLOCK FALSE
