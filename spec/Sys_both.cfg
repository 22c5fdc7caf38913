SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Ctxs <- CtxsAB
  Makers = {"a","b"}
  Names = {"n1"}
  Ents <- Both
  MaxOps = 3
  MayFail = TRUE
  MayLose = TRUE
  MayLeave = TRUE
  MayReuse = TRUE
  EmitOn = EMITON
INVARIANTS
  Attribution
  Counted
  Listed
  ByNode
