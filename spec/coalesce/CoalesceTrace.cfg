SPECIFICATION Spec
CONSTRAINT Progress
INVARIANT InvDistinct
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
