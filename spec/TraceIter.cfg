SPECIFICATION Spec
INVARIANT MachineOK
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
POSTCONDITION Conforms
