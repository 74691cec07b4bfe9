SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT MaxWidth = 2
VIEW View
INVARIANT InOrder
INVARIANT Once
PROPERTY Grows
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
