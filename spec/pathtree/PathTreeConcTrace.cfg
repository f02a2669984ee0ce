SPECIFICATION Spec
CONSTRAINT Progress
INVARIANT InvPrefixFree
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
