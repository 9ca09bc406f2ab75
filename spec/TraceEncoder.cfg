CONSTANT Half = 2048
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
