SPECIFICATION Spec
CONSTANT Ops = {"mean", "batch_mean", "dropout", "dropout_dim", "slice_sum", "batch_norm", "layer_norm"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsA
CONSTANT Axes <- AxesA
INVARIANT Defined
INVARIANT Slopes
INVARIANT Algebra
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
