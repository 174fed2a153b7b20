CONSTANT MaxSolves = 4
SPECIFICATION Spec
INVARIANT FoundIsConsistent FailsOnlyIfNone FindsIfAny Bounded
PROPERTY Ends_
CHECK_DEADLOCK FALSE
