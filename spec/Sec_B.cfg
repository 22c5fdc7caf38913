SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Slots = {"key.p11", "key.pem", "permissions.p7s"}
  Kinds = {"none", "file", "dir", "secret", "uri", "late", "blank"}
  Flags = {TRUE, FALSE}
  EmitOn = EMITON
INVARIANTS P11Inert NeverP11 OptionalHarmless
PROPERTIES AllOrNothing OutcomeIsAnswer LIVE
