CONSTANTS
 Origins = {"", "o1", "o2"}
 Broken = "drop"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Placed Found
