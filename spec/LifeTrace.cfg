SPECIFICATION TSpec
INVARIANT Owned
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 60 NF = 4 NS = 2 NO = 3 NI = 3 NP = 2 NT = 3 ND = 4 NU = 2
