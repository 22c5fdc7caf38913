SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Slots = {"cert.p11", "permissions_ca.cert.p11", "cert.pem", "permissions_ca.cert.pem"}
  Kinds = {"none", "file", "uri", "late"}
  Flags = {TRUE, FALSE}
  EmitOn = EMITON
INVARIANTS P11Inert NeverP11 OptionalHarmless
PROPERTIES AllOrNothing OutcomeIsAnswer LIVE
