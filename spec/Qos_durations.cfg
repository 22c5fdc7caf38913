SPECIFICATION Spec
ACTION_CONSTRAINT Emit
CONSTANTS
  Unspecified <- U
  BestAvailable <- B
  Infinite <- I
  Mode = "durations"
  Sizes = {0, 1, 2, 59, 60, 61, 62, 63, 200}
  MaxEndpoints = 0
  EmitOn = EMITON
INVARIANTS VerdictRight SelfCompatible Resolutions Relax ReasonRight NeverOverrun
LIVE
