SPECIFICATION Spec
CONSTANTS MaxT = 6
          GenLen = 0
          GenMax = 1
INVARIANTS CursorInRange ServesNearest Ties NoMemory
