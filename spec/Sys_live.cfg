SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Ctxs <- CtxsAB
  Makers = {"a"}
  Names = {"n1","n2"}
  Ents <- One
  MaxOps = 3
  MayFail = FALSE
  MayLose = FALSE
  MayLeave = TRUE
  MayReuse = TRUE
  EmitOn = EMITON
INVARIANTS
  Attribution
  Counted
  Listed
  ByNode
PROPERTIES
  EventuallyTold
