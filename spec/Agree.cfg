SPECIFICATION Spec
CONSTANT Mode = "agree"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
