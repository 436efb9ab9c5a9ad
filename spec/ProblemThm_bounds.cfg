SPECIFICATION TSpec
CONSTANTS
 GenLen = 5
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "bounds"
 What = "bounds"
 Draws = 300
INVARIANTS Discretised Shifts Windows
CHECK_DEADLOCK FALSE
