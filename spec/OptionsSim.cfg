SPECIFICATION Spec
CONSTANTS MaxLen = 16
 MinErr = 15
INVARIANTS TypeOK Untouched NeedsInput
CHECK_DEADLOCK FALSE
