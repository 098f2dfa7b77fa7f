SPECIFICATION Spec
CONSTANT Mode = "pure"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
