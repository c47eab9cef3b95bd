CONSTANTS G = "w"
 Fns = {"sin","cos","tan","asin","acos","atan","atan2"}
SPECIFICATION Spec
INVARIANTS UnaryTight BinaryTight DoubleRounding Isotonic DecDefined DecBounded
CHECK_DEADLOCK FALSE
