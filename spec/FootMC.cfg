SPECIFICATION Spec
CONSTANTS MaxHalf = 4
 GenLen = 0
INVARIANTS Correct ValidDims
