SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
