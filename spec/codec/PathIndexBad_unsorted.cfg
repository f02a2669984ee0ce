CONSTANTS
  Names <- NamesDef
  Vals = {1, 2}
  Elems = {"a", "b"}
  MaxKeys = 3
  MaxEl = 1
  Gen = FALSE
  Broken = "unsorted"
SPECIFICATION Spec
INVARIANT Deterministic
INVARIANT Leading
CHECK_DEADLOCK FALSE
