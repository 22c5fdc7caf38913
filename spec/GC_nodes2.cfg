SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Gids = {"g1"}
  Topics = {"t1"}
  Parts = {"p1", "p2"}
  Enclaves = {""}
  Names = {"n1", "n2"}
  Nss = {"/"}
  MaxNodes = 2
  MaxGids = 1
  Kinds = {"addp", "rmp", "addn", "rmn", "asw", "dsw", "asr", "dsr"}
  UpdNodes <- UpdNone
  EmitOn = EMITON
INVARIANTS
  TypeOK
  AttributionSound
  NodeQueriesSound
  CountsConsistent
PROPERTIES
  DiscoveryExact
  ParticipantsExact
  EditsLocal
  AnnouncementsComplete
  NotifyIffEffective
