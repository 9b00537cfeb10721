SPECIFICATION GSpec
INVARIANT Owned
CHECK_DEADLOCK FALSE
CONSTANTS Choices <- OneChoice MaxLen = 60 NF = 4 NS = 2 NO = 3 NI = 3 NP = 2 NT = 3 ND = 4 NU = 2
