SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT MaxCopies = 2
CONSTANT MaxFiles = 1
CONSTANT Lost = ""
VIEW View
INVARIANT Exact
PROPERTY Apart
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
