SPECIFICATION Spec
CONSTANT Ops = {"argmax", "argmin", "argsort"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsD
CONSTANT Axes <- AxesA
INVARIANT Defined
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
