SPECIFICATION Spec
CONSTANT MaxLen = 7
CONSTANT MaxCopies = 3
CONSTANT MaxFiles = 2
CONSTANT Lost = ""
VIEW View
INVARIANT Exact
PROPERTY Apart
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
