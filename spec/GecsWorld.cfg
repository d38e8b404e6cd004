SPECIFICATION Spec
INVARIANT Refines
VIEW FullView
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 4
  MaxGen = 9
  Wrapping = FALSE
  Debug = TRUE
  Flaw = ""
  Worlds = {0}
  Arches = {1}
  Caps = {0, 1, 2, 3}
  MaxEnt = 3
  MaxRem = 3
  Ops = {"cr", "de"}
  Queries = {"all"}
  Events = FALSE
  Edges = FALSE
