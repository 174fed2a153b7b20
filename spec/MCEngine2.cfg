SPECIFICATION Spec
CONSTANTS
    N = 3
    Comps = {"chx", "hhx"}
    MaxOuter = 4
    MaxInner = 1
INVARIANTS TypeOK SuccessIsConsistent WithinLimits InnerFailure OuterFailure Ended ResultIsExpected PathIsIterates
PROPERTY Termination
CHECK_DEADLOCK FALSE
