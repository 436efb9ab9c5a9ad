SPECIFICATION TSpec
CONSTANTS
 GenLen = 5
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "plan"
 What = "plan"
 Draws = 300
INVARIANTS Rotations Layouts
CHECK_DEADLOCK FALSE
