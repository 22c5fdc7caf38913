SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Objects = {1, 2, 3}
  Args = {1, 2}
  MaxCalls = 4
  SharedScratch = FALSE
  OneLock = FALSE
INVARIANTS
  AnswersAlone
  NoDeadlock
PROPERTIES
  OthersUntouched
