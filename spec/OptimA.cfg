SPECIFICATION Spec
CONSTANT MaxLen = 3
VIEW View
INVARIANT Idempotent
PROPERTY Counted
PROPERTY Kept
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
