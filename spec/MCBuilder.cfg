SPECIFICATION Spec
CONSTANTS
  Scope = "tab"
  MaxObj = 3
  MaxFld = 2
  MaxOps = 7
  Emit = TRUE
INVARIANTS ModelWire ModelShare ModelCount ModelRound Emitted
CHECK_DEADLOCK FALSE
