SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Gids = {"g1", "g2"}
  Topics = {"t1", "t2"}
  Parts = {"p1", "p2"}
  Enclaves = {""}
  Names = {"n1"}
  Nss = {"/"}
  MaxNodes = 0
  MaxGids = 0
  Kinds = {"add", "rm"}
  UpdNodes <- UpdNone
  EmitOn = EMITON
INVARIANTS
  TypeOK
  AttributionSound
  NodeQueriesSound
  CountsConsistent
PROPERTIES
  DiscoveryExact
  ParticipantsExact
  EditsLocal
  AnnouncementsComplete
  NotifyIffEffective
