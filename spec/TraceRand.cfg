SPECIFICATION Spec
CONSTRAINT Conforms
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
