SPECIFICATION Spec
ACTION_CONSTRAINT Emit
CONSTANTS
  Unspecified <- U
  BestAvailable <- B
  Infinite <- I
  Mode = "services"
  Sizes = {}
  MaxEndpoints = 0
  EmitOn = EMITON
INVARIANTS ServicesRight
LIVE
