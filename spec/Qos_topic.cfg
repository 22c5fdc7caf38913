SPECIFICATION Spec
ACTION_CONSTRAINT Emit
CONSTANTS
  Unspecified <- U
  BestAvailable <- B
  Infinite <- I
  Mode = "topic"
  Sizes = {}
  MaxEndpoints = 2
  EmitOn = EMITON
INVARIANTS ResolvedRight NothingLeft AskedOnce SubscriptionFits PublisherFits
LIVE
