SPECIFICATION Spec
CONSTANT Threads = {1}
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
