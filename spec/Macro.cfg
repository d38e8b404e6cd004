SPECIFICATION Spec
INVARIANTS Refines Laws Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Profile = "ids"
  Flaw = ""
