CONSTANTS G = "w"
 Fns = {"add"}
 Args <- SmallIvs
SPECIFICATION Spec
INVARIANTS PeriodicSound PeriodicUp
CHECK_DEADLOCK FALSE
