SPECIFICATION SGenSpec
CONSTANTS
 GenLen = 5
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "terms"
INVARIANT SEmit
