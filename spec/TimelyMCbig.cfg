SPECIFICATION Spec
CONSTANTS MaxT = 9
          GenLen = 0
          GenMax = 1
INVARIANTS CursorInRange ServesNearest Ties NoMemory
