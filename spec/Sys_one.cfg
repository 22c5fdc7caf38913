SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Ctxs <- CtxsAB
  Makers = {"a"}
  Names = {"n1","n2"}
  Ents <- One
  MaxOps = 4
  MayFail = TRUE
  MayLose = TRUE
  MayLeave = TRUE
  MayReuse = TRUE
  EmitOn = EMITON
INVARIANTS
  Attribution
  Counted
  Listed
  ByNode
