SPECIFICATION Spec
CONSTANT Ops = {"pow", "powf", "sqrt", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "lrelu", "elu"}
CONSTANT Batches = {1, 2, 3}
CONSTANT Dims <- DimsB
CONSTANT Axes <- AxesA
INVARIANT Defined
INVARIANT Algebra
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
