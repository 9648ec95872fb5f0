INIT Init
NEXT Next
INVARIANT AllValid
INVARIANT Consistent
INVARIANT Written
CHECK_DEADLOCK FALSE
