SPECIFICATION Spec
CONSTANTS MaxHalf = 9
 GenLen = 0
INVARIANTS Correct ValidDims
