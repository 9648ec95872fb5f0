SPECIFICATION Spec
INVARIANT Same
INVARIANT Functional
INVARIANT Listed
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
