SPECIFICATION Spec
CONSTANT NWorkers = 4
CHECK_DEADLOCK FALSE
