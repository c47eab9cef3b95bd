CONSTANTS Threads = {1, 2}
 Formats = {"w", "u", "t"}
 Installs = TRUE
 Private = TRUE
SPECIFICATION Spec
INVARIANTS Correct
CHECK_DEADLOCK FALSE
