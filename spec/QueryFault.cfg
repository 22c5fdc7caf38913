SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
CONSTANTS
  EmitOn = EMITON
  MaxRows = 3
  MaxTypes = 3
  Mistake = "none"
INVARIANTS
  TypeOK
  NeverTwice
  ErrorHoldsNothing
  AllReturned
  RefusalIsReported
PROPERTIES
  SuccessIsComplete
  Finishes
