SPECIFICATION Spec
INVARIANT ReadsValid
INVARIANT Stacks
CHECK_DEADLOCK FALSE
