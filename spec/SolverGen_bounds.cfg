SPECIFICATION SGenSpec
CONSTANTS
 GenLen = 8
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "bounds"
INVARIANT SEmit
