SPECIFICATION Spec
VIEW View
INVARIANTS Emit NoAlias
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 MaxG = 3
 MaxF = 2
 Gen = TRUE
 Empty = {}
 Inside = TRUE
