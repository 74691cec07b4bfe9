SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Direct
INVARIANT Bounded
INVARIANT Undo
INVARIANT Commute
INVARIANT Emit
CHECK_DEADLOCK FALSE
