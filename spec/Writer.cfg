SPECIFICATION Spec
INVARIANT Reading
INVARIANT Complete
CHECK_DEADLOCK FALSE
