SPECIFICATION Spec
INVARIANT RoundTrips
INVARIANT PrefixesFail
INVARIANT BoundsFail
INVARIANT HasValues
CHECK_DEADLOCK FALSE
