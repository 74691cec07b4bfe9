SPECIFICATION Spec
CONSTANTS
  Leaves = 1
  MaxOps = 3
  MaxRequests = 3
  Emit = 2000
INVARIANTS Derivative Lazy BackOrder Work Sample
CHECK_DEADLOCK FALSE
