CONSTANTS G = "t"
 Depth = 3
SPECIFICATION Spec
INVARIANTS Rounding Valid CaseFree BlankFree Inside Closed Decorated Split Mirrored Hulls Grows
CHECK_DEADLOCK FALSE
