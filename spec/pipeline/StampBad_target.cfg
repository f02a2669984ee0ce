CONSTANTS
 Origins = {"", "o1", "o2"}
 Broken = "target"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Placed Found
