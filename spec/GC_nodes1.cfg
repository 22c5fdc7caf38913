SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Gids = {"g1"}
  Topics = {"t1"}
  Parts = {"p1"}
  Enclaves = {"", "e"}
  Names = {"n1", "n2"}
  Nss = {"/"}
  MaxNodes = 2
  MaxGids = 2
  Kinds = {"addp", "addn", "rmn", "asw", "dsw", "asr", "dsr"}
  UpdNodes <- UpdNone
  EmitOn = EMITON
INVARIANTS
  TypeOK
  AttributionSound
  NodeQueriesSound
  CountsConsistent
PROPERTIES
  DiscoveryExact
  ParticipantsExact
  EditsLocal
  AnnouncementsComplete
  NotifyIffEffective
