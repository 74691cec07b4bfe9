SPECIFICATION Spec
CONSTANT Parts <- PartsA
CONSTANT Exps = {4, 8, 10, 12, 40, 70, 100, 120}
CONSTANT Lens = {1, 2, 3, 4}
INVARIANT Laws
INVARIANT LineLaws
INVARIANT ShiftLaws
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
