SPECIFICATION Spec
CONSTANTS Labels = {"a", "b", "c"}
          MaxSize = 2
          GenLen = 0
INVARIANT TypeInv
PROPERTY AppendOnly
CONSTRAINT Big
