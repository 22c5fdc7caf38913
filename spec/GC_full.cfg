SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Gids = {"g1", "g2"}
  Topics = {"t1", "t2"}
  Parts = {"p1", "p2"}
  Enclaves = {""}
  Names = {"n1", "n2"}
  Nss = {"/"}
  MaxNodes = 2
  MaxGids = 1
  Kinds = {"add", "rm", "addp", "rmp", "upd", "addn", "rmn", "asw", "dsw", "asr", "dsr"}
  UpdNodes <- UpdSmall
  EmitOn = EMITON
INVARIANTS
  TypeOK
  AttributionSound
  NodeQueriesSound
  CountsConsistent
PROPERTIES
  DiscoveryExact
  ParticipantsExact
  EditsLocal
  AnnouncementsComplete
  NotifyIffEffective
