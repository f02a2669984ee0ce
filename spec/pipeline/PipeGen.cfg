CONSTANTS
 MaxHist = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
