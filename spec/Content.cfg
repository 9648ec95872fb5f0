SPECIFICATION Spec
INVARIANT Agree
INVARIANT Dead
INVARIANT Live
INVARIANT Split
INVARIANT Join
CHECK_DEADLOCK FALSE
