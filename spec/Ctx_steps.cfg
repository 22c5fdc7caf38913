SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Works <- WorksAll
  MaxCalls = 3
  UseN = TRUE
  UseG = TRUE
INVARIANTS
  WholeOperations
  StateIsSequence
  QueriesWhole
  NoDeadlock
  MutualExclusion
PROPERTIES
  AnnounceIsState
