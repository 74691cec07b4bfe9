SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT MaxTensors = 2
CONSTANT Unwind = "release"
CONSTANT Commit = "late"
CONSTANT Check = 1
VIEW View
INVARIANT Accounted AsIfNever
PROPERTY Rules
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
