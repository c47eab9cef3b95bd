CONSTANTS G = "w"
 Fns = {"sign","ceil","floor","trunc","rte","rta","abs","min","max"}
SPECIFICATION Spec
INVARIANTS UnaryTight BinaryTight DoubleRounding Isotonic DecDefined DecBounded DecContinuous StepMeaning
CHECK_DEADLOCK FALSE
