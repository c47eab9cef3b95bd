CONSTANTS G = "w"
 Fns = {"add"}
SPECIFICATION Spec
INVARIANTS PeriodicSound PeriodicUp
CHECK_DEADLOCK FALSE
