SPECIFICATION Spec
CONSTANTS
    N = 3
    Comps = {"chx"}
    MaxOuter = 5
    MaxInner = 2
INVARIANTS TypeOK SuccessIsConsistent WithinLimits InnerFailure OuterFailure Ended ResultIsExpected PathIsIterates
PROPERTY Termination
CHECK_DEADLOCK FALSE
