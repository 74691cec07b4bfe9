SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxLen = 2
  Stock = {0, 1}
  Emit = 4
  PushFirst = FALSE
INVARIANTS Exclusive NoFailure Conserved Recorded Progress Sample
PROPERTIES Recycled
CHECK_DEADLOCK FALSE

