SPECIFICATION Spec
CONSTANTS
  Leaves = 2
  MaxOps = 2
  MaxRequests = 3
  Emit = 120
INVARIANTS Derivative Lazy BackOrder Work Sample
CHECK_DEADLOCK FALSE
