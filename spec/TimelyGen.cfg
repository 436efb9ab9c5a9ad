SPECIFICATION GenSpec
CONSTANTS MaxT = 1
          GenLen = 60
          GenMax = 8
INVARIANT Emit
