SPECIFICATION TSpec
CONSTANTS
 GenLen = 5
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "terms"
 What = "terms"
 Draws = 100
INVARIANTS Additive NotNegative Once
CHECK_DEADLOCK FALSE
