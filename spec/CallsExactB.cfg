SPECIFICATION Spec
CONSTANT Ops = {"add", "sub", "mul", "div", "addcr", "subcr", "mulcr", "divcr", "addcl", "subcl", "mulcl", "divcl", "neg", "powi", "abs", "sum", "max", "min", "broadcast", "matmul", "transpose", "flip", "permute", "tril", "triu", "relu", "prelu", "slice", "split", "pick", "concat", "reshape", "flatten", "batch_sum", "batch_slice", "batch_split", "batch_pick", "batch_concat", "addassign", "subassign", "mulassign"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsB
CONSTANT Axes <- AxesA
INVARIANT Defined
INVARIANT Algebra
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
