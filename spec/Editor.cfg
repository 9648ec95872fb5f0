SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Law
CHECK_DEADLOCK FALSE
POSTCONDITION Reached
