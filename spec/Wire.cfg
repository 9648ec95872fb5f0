SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT OnlyKnown
INVARIANT AnyOrder
INVARIANT Needed
CHECK_DEADLOCK FALSE
