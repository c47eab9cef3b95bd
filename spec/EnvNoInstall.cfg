CONSTANTS Threads = {1, 2}
 Formats = {"w", "t"}
 Installs = FALSE
 Private = TRUE
SPECIFICATION Spec
INVARIANTS Correct
CHECK_DEADLOCK FALSE
