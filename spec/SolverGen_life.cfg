SPECIFICATION SGenSpec
CONSTANTS
 GenLen = 16
 Kinds = {"com"}
 Fns = {"val"}
 Ops = {}
 Focus = "life"
INVARIANT SEmit
