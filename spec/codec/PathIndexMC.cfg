CONSTANTS
  Names <- NamesDef
  Vals = {1, 2}
  Elems = {"a"}
  MaxKeys = 3
  MaxEl = 2
  Gen = FALSE
  Broken = ""
SPECIFICATION Spec
INVARIANT Deterministic
INVARIANT Leading
CHECK_DEADLOCK FALSE
