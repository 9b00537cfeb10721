SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MinErr = 0
INVARIANTS TypeOK Untouched NeedsInput
CHECK_DEADLOCK FALSE
