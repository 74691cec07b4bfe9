SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxLen = 1
  Stock = {0, 1, 2}
  Emit = 6
  PushFirst = FALSE
INVARIANTS Exclusive NoFailure Conserved Recorded Progress Sample
PROPERTIES Recycled
CHECK_DEADLOCK FALSE

