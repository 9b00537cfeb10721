SPECIFICATION Spec
CONSTANTS MaxPar = 2 MaxStm = 2 MaxDim = 2 Scats = {1, 2}
INVARIANTS TypeOK OneFault
CHECK_DEADLOCK FALSE
