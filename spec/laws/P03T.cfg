CONSTANTS G = "t"
 Fns = {"exp","exp2","exp10","log","log2","log10"}
SPECIFICATION Spec
INVARIANTS UnaryTight DoubleRounding Isotonic DecDefined DecContinuous DecBounded
CHECK_DEADLOCK FALSE
