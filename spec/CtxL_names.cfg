SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Gids = {"g1"}
  Names = {"n1", "n2"}
  MaxNodes = 2
  MaxGids = 1
  Pairwise <- PairsSame
  EmitOn = EMITON
INVARIANTS
  TypeOK
  InStepUnlessDirty
  AddRemoveNeutral
PROPERTIES
  AdditionUndone
  RemovalKept
  CaughtUp
  SuccessIsExact
  NodesExact
