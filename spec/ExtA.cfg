SPECIFICATION Spec
CONSTANT Parts <- PartsA
CONSTANT Exps = {4, 8, 12, 40, 100}
CONSTANT Lens = {1, 2, 3}
INVARIANT Laws
INVARIANT LineLaws
INVARIANT ShiftLaws
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
