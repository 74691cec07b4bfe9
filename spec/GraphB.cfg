SPECIFICATION Spec
CONSTANTS
  Leaves = 1
  MaxOps = 3
  MaxRequests = 2
  Emit = 240
INVARIANTS Derivative Lazy BackOrder Work Sample
CHECK_DEADLOCK FALSE
