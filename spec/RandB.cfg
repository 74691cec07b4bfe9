SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Sizes = {1, 2}
CONSTANT Fill = "whole"
CONSTANT Source = "on"
VIEW View
INVARIANT Fresh Whole
PROPERTY Rules Rejected
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
