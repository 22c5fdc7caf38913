SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Ctxs = {"a", "b"}
  Names = {"n1"}
  Gids = {"g1"}
  MaxNodes = 2
  MaxGids = 1
  MaxOps = 2
  Whats = {"add_node", "rm_node", "add_pub", "rm_pub"}
  MayFail = TRUE
  MayLeave = TRUE
  MayLose = TRUE
  EmitOn = EMITON
INVARIANTS
  RemoteIsAnnounced
  Converged
PROPERTIES
  OwnStateLocal
  AnnounceEach
  FailureEffect
