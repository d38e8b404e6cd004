SPECIFICATION Spec
INVARIANTS Emit Faithful
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 Gen = TRUE
