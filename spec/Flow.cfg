SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Ctxs = 2
  Pubs = {"p1"}
  Subs = {"s1", "s2"}
  Catalog = {"open", "strong", "weak"}
  Profile <- Prof
  EmitOn = EMITON
  Unspecified <- U
  BestAvailable <- BA
  Infinite <- Inf
  DMax <- Max
INVARIANTS
  KnownIsTrue
  AllOpenFits
PROPERTIES
  FitsKnown
  Stable
