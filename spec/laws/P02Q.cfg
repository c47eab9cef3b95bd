CONSTANTS G = "w"
 Fns = {"pown","pow"}
SPECIFICATION Spec
INVARIANTS UnaryTight BinaryTight DoubleRounding Isotonic DecDefined DecBounded
CHECK_DEADLOCK FALSE
