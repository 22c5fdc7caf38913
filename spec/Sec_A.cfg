SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  Slots = {"identity_ca.cert.p11", "identity_ca.cert.pem", "crl.pem"}
  Kinds = {"none", "file", "dir", "secret", "uri", "late", "blank"}
  Flags = {TRUE, FALSE}
  EmitOn = EMITON
INVARIANTS P11Inert NeverP11 OptionalHarmless
PROPERTIES AllOrNothing OutcomeIsAnswer LIVE
