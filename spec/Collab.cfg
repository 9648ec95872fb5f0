SPECIFICATION Spec
INVARIANT AllValid
INVARIANT Consistent
INVARIANT InStep
INVARIANT Current_
PROPERTY Converges
CHECK_DEADLOCK FALSE
