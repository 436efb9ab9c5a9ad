SPECIFICATION Spec
CONSTANTS
 Times = {0, 2}
INVARIANTS TypeOK HasInit Continues NoPartial
PROPERTIES Refused NotOld GuessKept
CHECK_DEADLOCK FALSE
