SPECIFICATION Spec
CONSTANT MaxLen = 4
VIEW View
INVARIANT Idempotent
PROPERTY Counted
PROPERTY Kept
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
