SPECIFICATION Spec
CONSTANT Mode = "conform"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
