SPECIFICATION GenSpec
CONSTANTS Labels = {"a", "b", "c", "d", "LeftForcePoint0", "LeftForcePoint1", "", "Left"}
          MaxSize = 5
          GenLen = 30
INVARIANT Emit
