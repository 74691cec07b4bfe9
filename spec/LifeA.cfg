SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3}
CONSTANT MaxLen = 4
CONSTANT Emitting = TRUE
VIEW View
INVARIANT Once
INVARIANT Sees
INVARIANT Accounted
PROPERTY NoEffect
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
