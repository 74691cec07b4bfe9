SPECIFICATION Spec
CONSTANT Ops = {"add", "sub", "mul", "div", "addcr", "subcr", "mulcr", "divcr", "addcl", "subcl", "mulcl", "divcl", "neg", "powi", "abs", "sum", "max", "min", "broadcast", "matmul", "transpose", "flip", "permute", "tril", "triu", "relu", "prelu", "slice", "split", "pick", "concat", "reshape", "flatten", "batch_sum", "batch_slice", "batch_split", "batch_pick", "batch_concat", "addassign", "subassign", "mulassign", "pow", "powf", "sqrt", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "lrelu", "elu", "mean", "batch_mean", "dropout", "dropout_dim", "slice_sum", "batch_norm", "layer_norm", "argmax", "argmin", "argsort"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsA
CONSTANT Axes <- AxesA
INVARIANT Defined
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
