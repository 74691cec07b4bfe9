SPECIFICATION Spec
CONSTANT Ops = {"add", "sub", "mul", "div", "addassign", "subassign", "mulassign", "neg", "abs", "relu", "flatten", "mulcr", "addcl", "subcl", "powi", "sum", "max", "min", "logsumexp", "softmax", "ln_softmax", "mean", "broadcast", "transpose", "flip", "permute", "tril", "triu", "slice", "split", "pick", "ssce", "concat", "slice_sum", "matmul", "sce", "layer_norm"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsA
CONSTANT Pattern = "shared"
INVARIANT Law
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
