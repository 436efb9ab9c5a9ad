SPECIFICATION Spec
CONSTANT Aspects = {"plan"}
POSTCONDITION Accepted
