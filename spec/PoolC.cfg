SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxLen = 3
  Stock = {0, 1}
  Emit = 0
  PushFirst = FALSE
INVARIANTS Exclusive NoFailure Conserved Recorded Progress Sample
PROPERTIES Recycled
CHECK_DEADLOCK FALSE
VIEW View
