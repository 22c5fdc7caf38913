SPECIFICATION Spec
ACTION_CONSTRAINT Emit
CONSTANTS
  Unspecified <- U
  BestAvailable <- B
  Infinite <- I
  Mode = "compat"
  Sizes = {0, 1, 60, 700}
  MaxEndpoints = 0
  EmitOn = EMITON
INVARIANTS VerdictRight SelfCompatible Resolutions Relax ReasonRight NeverOverrun
LIVE
